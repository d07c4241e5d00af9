//! P27: SQL text. Random tables and statements given as text to the real engine; a reference that
//! works on the statement's own tree says what each must return or change.
use std::sync::Arc;

use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::types_db::type_id::TypeId as Ty;
use ferrite::types_db::value::{Val, Value};
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::execs::{bag, cell, cmp_cell, line, matches, slice};
use crate::exprs::{Ex, Op, Out, R, eval, small, tree, truth, ty};
use crate::rng::Rng;
use crate::sqlkit::Db;
use crate::values::{int_of, mk_int};

type Row = Vec<Value>;
const TYPES: [Ty; 6] = [Ty::Integer, Ty::BigInt, Ty::SmallInt, Ty::Decimal, Ty::VarChar, Ty::Boolean];

fn type_name(t: Ty) -> Option<&'static str> {
    Some(match t {
        Ty::TinyInt => "TINYINT",
        Ty::SmallInt => "SMALLINT",
        Ty::Integer => "INTEGER",
        Ty::BigInt => "BIGINT",
        Ty::Decimal => "DECIMAL",
        Ty::VarChar => "VARCHAR(60)",
        Ty::Boolean => "BOOLEAN",
        _ => return None,
    })
}
/// The value written plainly, whatever type the text is then given.
pub fn literal(v: &Value) -> Option<String> {
    Some(match v.get_val() {
        Val::Null => "NULL".into(),
        Val::Boolean(b) => (if *b { "TRUE" } else { "FALSE" }).into(),
        Val::Decimal(f) => {
            if !f.is_finite() {
                return None;
            }
            if *f < 0.0 { format!("({f:?})") } else { format!("{:?}", f.abs()) }
        },
        Val::VarLen(s) => format!("'{}'", s.replace('\'', "''")),
        _ => {
            let i = int_of(v)?;
            if i == i64::MIN as i128 {
                return None;
            }
            if i < 0 { format!("({i})") } else { i.to_string() }
        },
    })
}
/// The type an integer literal is given by its size.
fn natural(i: i128) -> Ty {
    let i = i.abs();
    if i <= i8::MAX as i128 {
        Ty::TinyInt
    } else if i <= i16::MAX as i128 {
        Ty::SmallInt
    } else if i <= i32::MAX as i128 {
        Ty::Integer
    } else {
        Ty::BigInt
    }
}
fn typed_literal(v: &Value) -> Option<String> {
    let s = literal(v)?;
    let t = v.get_type_id();
    match (int_of(v), t) {
        (Some(i), t) if !v.is_null() => Some(if natural(i) == t {
            s
        } else if t == Ty::SmallInt || t == Ty::TinyInt || natural(i) == Ty::BigInt {
            return None;
        } else {
            format!("CAST({s} AS {})", type_name(t)?)
        }),
        _ => {
            if v.is_null() && matches!(t, Ty::SmallInt | Ty::TinyInt) {
                return None;
            }
            Some(if v.is_null() { format!("CAST(NULL AS {})", type_name(t)?) } else { s })
        },
    }
}
fn opname(op: Op) -> &'static str {
    match op {
        Op::Eq => "=",
        Op::Ne => "<>",
        Op::Lt => "<",
        Op::Le => "<=",
        Op::Gt => ">",
        Op::Ge => ">=",
    }
}
/// The expression as text over columns of these names; None if this dialect has no text for it.
pub fn text(e: &Ex, cols: &[String]) -> Option<String> {
    let p = |e: &Ex| text(e, cols);
    let n = |neg: bool| if neg { "NOT " } else { "" };
    Some(match e {
        Ex::Const(v) => typed_literal(v)?,
        Ex::Col(i, _) => cols[*i].clone(),
        Ex::Cmp(op, a, b, _) => format!("({} {} {})", p(a)?, opname(*op), p(b)?),
        Ex::Logic(and, a, b, _) => format!("({} {} {})", p(a)?, if *and { "AND" } else { "OR" }, p(b)?),
        Ex::Not(a, _) => format!("(NOT {})", p(a)?),
        Ex::Between(a, l, h, neg) => format!("({} {}BETWEEN {} AND {})", p(a)?, n(*neg), p(l)?, p(h)?),
        Ex::In(a, l, neg) => {
            if l.is_empty() {
                return None;
            }
            let l: Option<Vec<String>> = l.iter().map(literal).collect();
            format!("({} {}IN ({}))", p(a)?, n(*neg), l?.join(", "))
        },
        Ex::Quant(all, op, a, l) => {
            // arrays are of one type
            let same = |v: &Value| !v.is_null() && int_of(v).map(natural) == int_of(&l[0]).map(natural);
            if l.is_empty() || !l.iter().all(same) {
                return None;
            }
            let l: Option<Vec<String>> = l.iter().map(literal).collect();
            format!("({} {} {} (ARRAY[{}]))", p(a)?, opname(*op), if *all { "ALL" } else { "ANY" }, l?.join(", "))
        },
        Ex::Case(base, arms, els) => {
            // arms must be declared of one type, and computed numbers may be declared wider
            let declared = |e: &Ex| matches!(e, Ex::Const(_) | Ex::Col(..) | Ex::Cast(..) | Ex::Case(..)) || matches!(ty(e), Ty::Boolean | Ty::VarChar);
            if !arms.iter().all(|a| declared(&a.1)) || !els.iter().all(|e| declared(e)) {
                return None;
            }
            let mut s = "(CASE".to_string();
            if let Some(b) = base {
                s += &format!(" {}", p(b)?);
            }
            for (w, t) in arms {
                s += &format!(" WHEN {} THEN {}", p(w)?, p(t)?);
            }
            if let Some(e) = els {
                s += &format!(" ELSE {}", p(e)?);
            }
            s + " END)"
        },
        // LIKE does not tell small letters from capitals here, by design
        Ex::Like(a, b, esc, neg, false) => {
            let esc = esc.map(|c| format!(" ESCAPE '{c}'")).unwrap_or_default();
            format!("({} {}LIKE {}{esc})", p(a)?, n(*neg), p(b)?)
        },
        Ex::Regex(a, b, pat) if pat.kind >= 2 => {
            let esc = pat.esc.map(|c| format!(" ESCAPE '{c}'")).unwrap_or_default();
            format!("({} {}{} {}{esc})", p(a)?, n(pat.neg), if pat.kind == 2 { "SIMILAR TO" } else { "RLIKE" }, p(b)?)
        },
        Ex::Like(..) | Ex::Regex(..) | Ex::Coalesce(_) => return None,
        Ex::IsNull(a, neg) => format!("({} IS {}NULL)", p(a)?, n(*neg)),
        Ex::IsTruth(k, a, neg) => format!("({} IS {}{})", p(a)?, n(*neg), ["TRUE", "FALSE", "UNKNOWN"][*k as usize]),
        Ex::Distinct(a, b, neg) => format!("({} IS {}DISTINCT FROM {})", p(a)?, n(*neg), p(b)?),
        Ex::Neg(a) => format!("(- {})", p(a)?),
        Ex::Arith(op, a, b, _) => format!("({} {op} {})", p(a)?, p(b)?),
        Ex::Cast(a, t) => {
            if ty(a) == Ty::Char || !matches!(t, Ty::Integer | Ty::BigInt | Ty::Decimal) {
                return None;
            }
            format!("CAST({} AS {})", p(a)?, type_name(*t)?)
        },
        Ex::Substr(s, f, l) => match l {
            Some(l) => format!("SUBSTRING({} FROM {} FOR {})", p(s)?, p(f)?, p(l)?),
            None => format!("SUBSTRING({} FROM {})", p(s)?, p(f)?),
        },
        Ex::Trim(k, s, c) => match (k, c) {
            (0, None) => format!("TRIM({})", p(s)?),
            (_, None) => return None,
            (k, Some(c)) => format!("TRIM({} {} FROM {})", ["BOTH", "LEADING", "TRAILING"][*k as usize], p(c)?, p(s)?),
        },
        Ex::Position(a, b) => format!("POSITION({} IN {})", p(a)?, p(b)?),
        Ex::Overlay(s, w, f, l) => match l {
            Some(l) => format!("OVERLAY({} PLACING {} FROM {} FOR {})", p(s)?, p(w)?, p(f)?, p(l)?),
            None => format!("OVERLAY({} PLACING {} FROM {})", p(s)?, p(w)?, p(f)?),
        },
        Ex::UpLow(up, s) => format!("{}({})", if *up { "UPPER" } else { "LOWER" }, p(s)?),
        Ex::Ceil(up, s) => format!("{}({})", if *up { "CEIL" } else { "FLOOR" }, p(s)?),
        Ex::Concat(a, b) => format!("({} || {})", p(a)?, p(b)?),
    })
}

struct Tab {
    name: String,
    cols: Vec<String>,
    types: Vec<Ty>,
    rows: Vec<Row>,
}

/// What a statement must do.
struct Want {
    /// a condition may or may not have a value on some row: then only an answer is demanded
    loose: bool,
    must_fail: bool,
    may_fail: bool,
    groups: Vec<Vec<Row>>,
    cut: Option<(usize, usize)>,
}

/// Evaluation of one expression for the reference, with its verdicts gathered.
#[derive(Default)]
struct Eval {
    loose: bool,
    must_fail: bool,
    may_fail: bool,
}
impl Eval {
    fn val(&mut self, e: &Ex, row: &[Value]) -> Value {
        let Out { r, err_ok } = eval(e, row);
        self.may_fail |= err_ok;
        match r {
            Err(()) => {
                self.must_fail = true;
                Value::new_with_type(Val::Null, ty(e))
            },
            Ok(R::Null) => Value::new_with_type(Val::Null, ty(e)),
            Ok(R::B(b)) => Value::new(b),
            Ok(R::N(v)) => v,
            Ok(R::T(s)) => Value::new(s),
        }
    }
    fn holds(&mut self, e: &Ex, row: &[Value]) -> bool {
        let Out { r, err_ok } = eval(e, row);
        self.may_fail |= err_ok;
        self.loose |= err_ok && r.is_ok();
        match r {
            // a condition without a value refuses the row or the statement
            Err(()) => {
                self.may_fail = true;
                false
            },
            Ok(r) => truth(&r) == Some(true),
        }
    }
}

/// A printable expression that is defined on most rows.
fn expr(rng: &mut Rng, t: Ty, d: usize, types: &[Ty], cols: &[String], rows: &[Row]) -> (Ex, String) {
    let strict = rng.chance(9, 10);
    for _ in 0..20 {
        let e = tree(rng, t, d, types);
        if ty(&e) != t {
            continue;
        }
        let Some(s) = text(&e, cols) else { continue };
        if s.len() > 600 {
            continue;
        }
        if strict {
            let mut v = Eval::default();
            for r in rows {
                v.val(&e, r);
            }
            if v.must_fail || v.may_fail {
                continue;
            }
        }
        return (e, s);
    }
    let e = match types.iter().position(|x| *x == t) {
        Some(i) => Ex::Col(i, t),
        None => Ex::Cmp(Op::Eq, Box::new(Ex::Const(Value::new(1i32))), Box::new(Ex::Const(Value::new(1i32))), false),
    };
    let s = text(&e, cols).unwrap();
    (e, s)
}
fn any_expr(rng: &mut Rng, d: usize, types: &[Ty], cols: &[String], rows: &[Row]) -> (Ex, String) {
    let i = rng.below(types.len());
    if rng.chance(1, 2) {
        return (Ex::Col(i, types[i]), cols[i].clone());
    }
    expr(rng, types[i], d, types, cols, rows)
}
fn stored(rng: &mut Rng, t: Ty) -> Value {
    loop {
        let v = small(rng, t);
        if literal(&v).is_some() {
            return v;
        }
    }
}
fn row_text(r: &[Value]) -> String {
    format!("({})", r.iter().map(|v| literal(v).unwrap()).collect::<Vec<_>>().join(", "))
}

fn new_table(rng: &mut Rng, db: &Db, k: usize) -> Result<Tab, String> {
    let n = 2 + rng.below(4);
    let types: Vec<Ty> = (0..n).map(|_| *rng.pick(&TYPES)).collect();
    let cols: Vec<String> = (0..n).map(|i| format!("c{k}{i}")).collect();
    let name = format!("t{k}");
    let decl: Vec<String> = cols.iter().zip(&types).map(|(c, t)| format!("{c} {}", type_name(*t).unwrap())).collect();
    let sql = format!("CREATE TABLE {name} ({})", decl.join(", "));
    db.exec(&sql).map_err(|e| format!("{sql}: {e}"))?;
    let mut t = Tab { name, cols, types, rows: vec![] };
    let n = *rng.pick(&[0, 1, 2, 5, 9, 14]);
    if n > 0 {
        let rows: Vec<Row> = (0..n).map(|_| t.types.iter().map(|t| stored(rng, *t)).collect()).collect();
        let sql = format!("INSERT INTO {} VALUES {}", t.name, rows.iter().map(|r| row_text(r)).collect::<Vec<_>>().join(", "));
        db.exec(&sql).map_err(|e| format!("{sql}: {e}"))?;
        t.rows = rows;
    }
    Ok(t)
}

/// Values as SQL compares them: integers of any width alike.
fn plain(v: &Value) -> Value {
    match int_of(v) {
        Some(i) if !v.is_null() => mk_int(Ty::BigInt, i).unwrap(),
        _ => v.clone(),
    }
}
fn plain_rows(rows: &[Row]) -> Vec<Row> {
    rows.iter().map(|r| r.iter().map(plain).collect()).collect()
}
fn judge(sql: &str, got: Result<Vec<Row>, String>, want: &Want) -> Res {
    if want.loose {
        return Ok(());
    }
    match got {
        Err(e) => check!(want.must_fail || want.may_fail, "refused: {e}\n{sql}"),
        Ok(rows) => {
            check!(!want.must_fail, "an error was due and {} rows came: {}\n{sql}", rows.len(), rows.iter().take(4).map(|r| line(r)).collect::<Vec<_>>().join(" "));
            let groups: Vec<Vec<Row>> = want.groups.iter().map(|g| plain_rows(g)).collect();
            matches(&groups, want.cut, &plain_rows(&rows)).map_err(|e| {
                let all: Vec<Row> = want.groups.iter().flatten().cloned().collect();
                format!("{e}\n{sql}\n  wanted {}\n  got    {}", show(&all), show(&rows))
            })?
        },
    }
    Ok(())
}
fn show(rows: &[Row]) -> String {
    rows.iter().take(12).map(|r| line(r)).collect::<Vec<_>>().join("  ")
}
fn group_rows(mut v: Vec<(Vec<Value>, Row)>, desc: &[bool]) -> Vec<Vec<Row>> {
    let cmp = |a: &[Value], b: &[Value]| {
        for i in 0..a.len() {
            let o = cmp_cell(&a[i], &b[i]);
            if o.is_ne() {
                return if desc[i] { o.reverse() } else { o };
            }
        }
        std::cmp::Ordering::Equal
    };
    v.sort_by(|a, b| cmp(&a.0, &b.0));
    let mut out: Vec<Vec<Row>> = vec![];
    let mut last: Option<Vec<Value>> = None;
    for (k, r) in v {
        if last.as_ref().is_some_and(|l| cmp(l, &k).is_eq()) {
            out.last_mut().unwrap().push(r);
        } else {
            out.push(vec![r]);
        }
        last = Some(k);
    }
    out
}

struct Source {
    text: String,
    types: Vec<Ty>,
    cols: Vec<String>,
    rows: Vec<Row>,
}
fn source(rng: &mut Rng, tabs: &[Tab], ev: &mut Eval) -> Source {
    let a = rng.pick(tabs);
    let b = rng.pick(tabs);
    let pairs: Vec<(usize, usize)> = (0..a.types.len()).flat_map(|i| (0..b.types.len()).map(move |j| (i, j))).filter(|(i, j)| a.types[*i] == b.types[*j]).collect();
    if rng.chance(1, 2) || pairs.is_empty() || std::ptr::eq(a, b) {
        return if rng.chance(1, 3) {
            Source { text: format!("{} AS x", a.name), types: a.types.clone(), cols: a.cols.iter().map(|c| format!("x.{c}")).collect(), rows: a.rows.clone() }
        } else {
            Source { text: a.name.clone(), types: a.types.clone(), cols: a.cols.clone(), rows: a.rows.clone() }
        };
    }
    let alias = rng.chance(1, 2);
    let (an, bn) = if alias { ("x".to_string(), "y".to_string()) } else { (a.name.clone(), b.name.clone()) };
    let mut cols: Vec<String> = a.cols.iter().map(|c| format!("{an}.{c}")).collect();
    cols.extend(b.cols.iter().map(|c| format!("{bn}.{c}")));
    let types: Vec<Ty> = a.types.iter().chain(&b.types).cloned().collect();
    let mut on: Vec<(Ex, String)> = vec![];
    for _ in 0..1 + rng.below(2) {
        let (i, j) = *rng.pick(&pairs);
        let e = Ex::Cmp(Op::Eq, Box::new(Ex::Col(i, a.types[i])), Box::new(Ex::Col(a.types.len() + j, b.types[j])), false);
        let s = text(&e, &cols).unwrap();
        on.push((e, s));
    }
    let kind = rng.below(4);
    let word = ["INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"][kind];
    let on_text: Vec<String> = on.iter().map(|x| x.1.clone()).collect();
    let mut rows = vec![];
    let mut right_met = vec![false; b.rows.len()];
    let null_of = |t: &Tab| -> Row { t.types.iter().map(|t| Value::new_with_type(Val::Null, *t)).collect() };
    for l in &a.rows {
        let mut met = false;
        for (j, r) in b.rows.iter().enumerate() {
            let row: Row = l.iter().chain(r).cloned().collect();
            if on.iter().all(|x| ev.holds(&x.0, &row)) {
                met = true;
                right_met[j] = true;
                rows.push(row);
            }
        }
        if !met && (kind == 1 || kind == 3) {
            rows.push(l.iter().cloned().chain(null_of(b)).collect());
        }
    }
    if kind >= 2 {
        for (j, r) in b.rows.iter().enumerate() {
            if !right_met[j] {
                rows.push(null_of(a).into_iter().chain(r.iter().cloned()).collect());
            }
        }
    }
    let t = |t: &Tab, n: &str| if alias { format!("{} {n}", t.name) } else { t.name.clone() };
    Source { text: format!("{} {word} {} ON {}", t(a, &an), t(b, &bn), on_text.join(" AND ")), types, cols, rows }
}

/// A query and what it must return; the shape is for the record.
fn query(rng: &mut Rng, tabs: &[Tab]) -> (String, Want, String) {
    let mut ev = Eval::default();
    let mut src = source(rng, tabs, &mut ev);
    let mut shape = src.text.split(' ').filter(|w| ["INNER", "LEFT", "RIGHT", "FULL"].contains(w)).collect::<String>();
    let mut filter = String::new();
    if rng.chance(3, 5) {
        let (e, s) = expr(rng, Ty::Boolean, 3, &src.types, &src.cols, &src.rows);
        filter = format!(" WHERE {s}");
        src.rows.retain(|r| ev.holds(&e, r));
        shape += "+where";
    }
    let mut order: Vec<(Ex, String)> = vec![];
    let mut desc = vec![];
    let mut distinct = "";
    let (items, mut rows): (Vec<String>, Vec<(Vec<Value>, Row)>);
    let mut group = String::new();
    if rng.chance(1, 4) {
        shape += "+group";
        let (i, r, g) = grouped(rng, &src, &mut ev);
        items = i;
        group = g;
        rows = r.into_iter().map(|r| (vec![], r)).collect();
    } else {
        let mut es: Vec<(Ex, String)> = vec![];
        if rng.chance(1, 6) {
            shape += "+star";
            es.extend(src.types.iter().enumerate().map(|(i, t)| (Ex::Col(i, *t), src.cols[i].clone())));
            items = vec!["*".into()];
        } else {
            for _ in 0..1 + rng.below(4) {
                es.push(any_expr(rng, 3, &src.types, &src.cols, &src.rows));
            }
            items = es.iter().enumerate().map(|(i, e)| if rng.chance(1, 4) { format!("{} AS a{i}", e.1) } else { e.1.clone() }).collect();
        }
        if rng.chance(1, 6) {
            distinct = "DISTINCT ";
            shape += "+distinct";
        } else if rng.chance(1, 2) {
            for _ in 0..1 + rng.below(3) {
                let i = rng.below(src.types.len());
                order.push((Ex::Col(i, src.types[i]), src.cols[i].clone()));
                desc.push(rng.chance(1, 2));
            }
            shape += "+order";
        }
        rows = src
            .rows
            .iter()
            .map(|r| {
                let k = order.iter().map(|e| ev.val(&e.0, r)).collect();
                (k, es.iter().map(|e| ev.val(&e.0, r)).collect())
            })
            .collect();
        if !distinct.is_empty() {
            let mut seen = std::collections::HashSet::new();
            rows.retain(|r| seen.insert(line(&plain_rows(&[r.1.clone()])[0])));
        }
    }
    let mut tail = String::new();
    if !order.is_empty() {
        let o: Vec<String> = order.iter().zip(&desc).map(|(e, d)| format!("{}{}", e.1, if *d { " DESC" } else { "" })).collect();
        tail += &format!(" ORDER BY {}", o.join(", "));
    }
    let mut groups = group_rows(rows, &desc);
    let mut cut = None;
    if rng.chance(1, 4) {
        let take = rng.below(8);
        let skip = if rng.chance(1, 2) { rng.below(6) } else { 0 };
        tail += &format!(" LIMIT {take}");
        if skip > 0 {
            tail += &format!(" OFFSET {skip}");
        }
        let (g, c) = slice(groups, skip, take);
        groups = g;
        cut = c;
        shape += "+limit";
        // what is cut away may or may not be computed
        ev.may_fail |= ev.must_fail;
        ev.must_fail = false;
    }
    let sql = format!("SELECT {distinct}{} FROM {}{filter}{group}{tail}", items.join(", "), src.text);
    (sql, Want { loose: ev.loose, must_fail: ev.must_fail, may_fail: ev.may_fail, groups, cut }, shape)
}
fn grouped(rng: &mut Rng, src: &Source, ev: &mut Eval) -> (Vec<String>, Vec<Row>, String) {
    let n = src.types.len();
    let mut keys: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut keys);
    keys.truncate(rng.below(3));
    let mut items: Vec<String> = keys.iter().map(|k| src.cols[*k].clone()).collect();
    let mut aggs = vec![];
    for _ in 0..1 + rng.below(3) {
        let c = rng.below(n);
        let k = rng.below(6);
        // SUM of no rows at all is not specified
        let k = if k == 4 && keys.is_empty() && src.rows.is_empty() { 0 } else { k };
        let k = if k >= 4 && !matches!(src.types[c], Ty::SmallInt | Ty::Integer | Ty::BigInt | Ty::Decimal) { 1 } else { k };
        items.push(match k {
            0 => "COUNT(*)".into(),
            k => format!("{}({})", ["", "COUNT", "MIN", "MAX", "SUM", "AVG"][k], src.cols[c]),
        });
        aggs.push((k, c));
    }
    let mut groups: Vec<(Vec<Value>, Vec<&Row>)> = vec![];
    if keys.is_empty() {
        groups.push((vec![], vec![]));
    }
    for r in &src.rows {
        let k: Vec<Value> = keys.iter().map(|k| r[*k].clone()).collect();
        match groups.iter_mut().find(|g| g.0.iter().zip(&k).all(|(a, b)| cell(a) == cell(b))) {
            Some(g) => g.1.push(r),
            None => groups.push((k, vec![r])),
        }
    }
    // some keys are shown inside an expression, and some counts too
    let wrapped: Vec<bool> = keys.iter().map(|k| matches!(src.types[*k], Ty::Integer | Ty::BigInt | Ty::VarChar | Ty::Boolean) && rng.chance(1, 6)).collect();
    let doubled: Vec<bool> = aggs.iter().map(|a| a.0 < 2 && rng.chance(1, 4)).collect();
    for (i, k) in keys.iter().enumerate() {
        if wrapped[i] {
            items[i] = match src.types[*k] {
                Ty::VarChar => format!("({} || '!')", items[i]),
                Ty::Boolean => format!("(NOT {})", items[i]),
                _ => format!("({} % CAST(7 AS {}))", items[i], type_name(src.types[*k]).unwrap()),
            };
        }
    }
    for (i, d) in doubled.iter().enumerate() {
        if *d {
            items[keys.len() + i] = format!("({0} * CAST(2 AS BIGINT) + {0})", items[keys.len() + i]);
        }
    }
    let rows = groups
        .into_iter()
        .map(|(mut k, rows)| {
            for i in 0..k.len() {
                if wrapped[i] && !k[i].is_null() {
                    k[i] = match k[i].get_val() {
                        Val::VarLen(s) => Value::new(format!("{s}!")),
                        Val::Boolean(b) => Value::new(!b),
                        _ => mk_int(k[i].get_type_id(), int_of(&k[i]).unwrap() % 7).unwrap(),
                    };
                }
            }
            for (i, (a, c)) in aggs.iter().enumerate() {
                let times = if doubled[i] { 3 } else { 1 };
                let t = src.types[*c];
                let vs: Vec<&Value> = rows.iter().map(|r| &r[*c]).filter(|v| !v.is_null()).collect();
                let null = Value::new_with_type(Val::Null, t);
                k.push(match a {
                    0 => Value::new(rows.len() as i64 * times),
                    1 => Value::new(vs.len() as i64 * times),
                    2 => vs.iter().cloned().cloned().reduce(|a, b| if cmp_cell(&b, &a).is_lt() { b } else { a }).unwrap_or(null),
                    3 => vs.iter().cloned().cloned().reduce(|a, b| if cmp_cell(&b, &a).is_gt() { b } else { a }).unwrap_or(null),
                    _ if vs.is_empty() => null,
                    4 if t == Ty::Decimal => Value::new(vs.iter().map(|v| crate::exprs::f64_of(v)).sum::<f64>()),
                    4 => {
                        let abs: i128 = vs.iter().map(|v| int_of(v).unwrap().abs()).sum();
                        match mk_int(t, abs).and_then(|_| mk_int(t, vs.iter().map(|v| int_of(v).unwrap()).sum())) {
                            Some(v) => v,
                            None => {
                                // too large for the column's type on some order of adding
                                ev.may_fail = true;
                                ev.must_fail |= mk_int(t, vs.iter().map(|v| int_of(v).unwrap()).sum()).is_none();
                                mk_int(t, vs.iter().map(|v| int_of(v).unwrap()).sum()).unwrap_or(null)
                            },
                        }
                    },
                    _ => {
                        let f: f64 = vs.iter().map(|v| crate::exprs::f64_of(v)).sum();
                        if f.abs() > 1e12 {
                            ev.may_fail = true;
                        }
                        Value::new(f / vs.len() as f64)
                    },
                });
            }
            k
        })
        .collect();
    let mut rows: Vec<Row> = rows;
    let mut having = String::new();
    if !keys.is_empty() && rng.chance(1, 3) {
        // a condition on one column of the result
        let at = rng.below(items.len());
        let vs: Vec<&Value> = rows.iter().map(|r| &r[at]).filter(|v| !v.is_null() && literal(v).is_some()).collect();
        if !vs.is_empty() {
            let v = (*rng.pick(&vs)).clone();
            let op = *rng.pick(&crate::exprs::OPS);
            having = format!(" HAVING {} {} {}", items[at], opname(op), literal(&v).unwrap());
            rows.retain(|r| {
                let e = Ex::Cmp(op, Box::new(Ex::Const(r[at].clone())), Box::new(Ex::Const(v.clone())), false);
                ev.holds(&e, &[])
            });
        }
    }
    let g = if keys.is_empty() { String::new() } else { format!(" GROUP BY {}", keys.iter().map(|k| src.cols[*k].clone()).collect::<Vec<_>>().join(", ")) };
    (items, rows, g + &having)
}

fn select(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let db = Db::new(64, IsolationLevel::ReadCommitted);
    let mut tabs = vec![];
    for k in 0..1 + rng.below(3) {
        tabs.push(new_table(rng, &db, k)?);
    }
    for _ in 0..40 {
        let (sql, want, shape) = query(rng, &tabs);
        let got = db.exec(&sql).map(|x| x.1.rows);
        ctx.count(if got.is_ok() { "queries_answered" } else { "queries_refused" }, 1);
        ctx.seen(&shape);
        ctx.sample("query", || json!({"sql": sql, "rows": got.as_ref().map(|r| r.len()).ok()}));
        ctx.eval(1);
        judge(&sql, got, &want)?;
    }
    Ok(())
}

/// An expression that has a value on every row.
fn sure(rng: &mut Rng, t: Ty, d: usize, types: &[Ty], cols: &[String], rows: &[Row]) -> (Ex, String) {
    for _ in 0..30 {
        let (e, s) = expr(rng, t, d, types, cols, rows);
        let mut v = Eval::default();
        for r in rows {
            v.val(&e, r);
        }
        if !v.must_fail && !v.may_fail && ty(&e) == t {
            return (e, s);
        }
    }
    let i = types.iter().position(|x| *x == t).unwrap_or(0);
    (Ex::Col(i, types[i]), cols[i].clone())
}

enum Change {
    /// the table is this afterwards
    To(Vec<Row>),
    /// this, or refused
    Maybe(Vec<Row>),
    /// refused, and nothing changes
    Refused,
}

/// A statement that changes `t`, and what it must do.
fn change(rng: &mut Rng, tabs: &[Tab], at: usize) -> (String, Change, &'static str) {
    let t = &tabs[at];
    let n = t.types.len();
    let where_ = |rng: &mut Rng| -> (String, Vec<bool>) {
        if rng.chance(1, 8) {
            return (String::new(), vec![true; t.rows.len()]);
        }
        let (e, s) = sure(rng, Ty::Boolean, 2, &t.types, &t.cols, &t.rows);
        (format!(" WHERE {s}"), t.rows.iter().map(|r| if ty(&e) == Ty::Boolean { Eval::default().holds(&e, r) } else { true }).collect())
    };
    // named columns in any order; the others become NULL
    let mut named: Vec<usize> = (0..n).collect();
    let list = if rng.chance(1, 2) {
        rng.shuffle(&mut named);
        named.truncate(1 + rng.below(n));
        format!(" ({})", named.iter().map(|i| t.cols[*i].clone()).collect::<Vec<_>>().join(", "))
    } else {
        String::new()
    };
    let spread = |vals: &[Value]| -> Row {
        let mut r: Row = t.types.iter().map(|t| Value::new_with_type(Val::Null, *t)).collect();
        for (i, v) in named.iter().zip(vals) {
            r[*i] = v.clone();
        }
        r
    };
    match rng.below(12) {
        0..=2 => {
            let k = 1 + rng.below(4);
            let rows: Vec<Row> = (0..k).map(|_| named.iter().map(|i| stored(rng, t.types[*i])).collect()).collect();
            let sql = format!("INSERT INTO {}{list} VALUES {}", t.name, rows.iter().map(|r| row_text(r)).collect::<Vec<_>>().join(", "));
            let mut to = t.rows.clone();
            to.extend(rows.iter().map(|r| spread(r)));
            (sql, Change::To(to), "insert values")
        },
        3..=5 => {
            let from = rng.pick(tabs);
            let es: Vec<(Ex, String)> = named.iter().map(|i| sure(rng, t.types[*i], 2, &from.types, &from.cols, &from.rows)).collect();
            // a fallback of another type: nothing to say
            if es.iter().zip(&named).any(|(e, i)| ty(&e.0) != t.types[*i]) {
                return (format!("SELECT * FROM {}", t.name), Change::To(t.rows.clone()), "none");
            }
            let (c, s) = sure(rng, Ty::Boolean, 2, &from.types, &from.cols, &from.rows);
            let mut to = t.rows.clone();
            for r in &from.rows {
                if ty(&c) != Ty::Boolean || Eval::default().holds(&c, r) {
                    let vals: Vec<Value> = es.iter().map(|e| Eval::default().val(&e.0, r)).collect();
                    to.push(spread(&vals));
                }
            }
            let w = if ty(&c) == Ty::Boolean { format!(" WHERE {s}") } else { String::new() };
            let sql = format!("INSERT INTO {}{list} SELECT {} FROM {}{w}", t.name, es.iter().map(|e| e.1.clone()).collect::<Vec<_>>().join(", "), from.name);
            // a computed number may be declared wider than it is
            let wide = es.iter().zip(&named).any(|(e, i)| t.types[*i] == Ty::SmallInt && !matches!(e.0, Ex::Col(..)));
            (sql, if wide { Change::Maybe(to) } else { Change::To(to) }, "insert select")
        },
        6..=8 => {
            let (w, hit) = where_(rng);
            let mut sets = vec![];
            let mut used = named.clone();
            used.truncate(3);
            for i in used {
                let (e, s) = sure(rng, t.types[i], 2, &t.types, &t.cols, &t.rows);
                if ty(&e) == t.types[i] {
                    sets.push((i, e, s));
                }
            }
            if sets.is_empty() {
                return (format!("SELECT * FROM {}", t.name), Change::To(t.rows.clone()), "none");
            }
            let to: Vec<Row> = t
                .rows
                .iter()
                .zip(&hit)
                .map(|(r, h)| {
                    let mut new = r.clone();
                    if *h {
                        for (i, e, _) in &sets {
                            new[*i] = Eval::default().val(e, r);
                        }
                    }
                    new
                })
                .collect();
            let s: Vec<String> = sets.iter().map(|(i, _, s)| format!("{} = {s}", t.cols[*i])).collect();
            (format!("UPDATE {} SET {}{w}", t.name, s.join(", ")), Change::To(to), "update")
        },
        9 | 10 => {
            let (w, hit) = where_(rng);
            let to = t.rows.iter().zip(&hit).filter(|(_, h)| !**h).map(|(r, _)| r.clone()).collect();
            (format!("DELETE FROM {}{w}", t.name), Change::To(to), "delete")
        },
        _ => {
            let small: Vec<usize> = (0..n).filter(|i| matches!(t.types[*i], Ty::SmallInt | Ty::Integer)).collect();
            let sql = match rng.below(6) {
                0 => format!("INSERT INTO {} ({}, nope) VALUES (1, 2)", t.name, t.cols[0]),
                1 => format!("UPDATE {} SET nope = 1", t.name),
                2 => format!("DELETE FROM {} WHERE nope = 1", t.name),
                3 => format!("INSERT INTO {} ({}) VALUES ({})", t.name, t.cols[0], ["1, 2", "TRUE, TRUE", "'a', 'b'"][rng.below(3)]),
                k if !small.is_empty() && (k == 4 || t.rows.is_empty()) => {
                    let i = *rng.pick(&small);
                    format!("INSERT INTO {} ({}) VALUES (NULL), (3000000000)", t.name, t.cols[i])
                },
                _ if !small.is_empty() && !t.rows.is_empty() => {
                    let i = *rng.pick(&small);
                    format!("UPDATE {} SET {} = 3000000000", t.name, t.cols[i])
                },
                _ => format!("INSERT INTO nope VALUES (1)"),
            };
            (sql, Change::Refused, "refused")
        },
    }
}

fn table_is(db: &Db, tx: &Arc<ferrite::sql::execution::transaction_context::TransactionContext>, t: &Tab, after: &str) -> Res {
    let sql = format!("SELECT * FROM {}", t.name);
    let got = db.exec_in(&sql, tx).map_err(|e| format!("{sql}: {e} after\n{after}"))?.1.rows;
    check!(bag(&got) == bag(&t.rows), "table {} is not what it must be after\n{after}\n  wanted {}\n  got    {}", t.name, show(&t.rows), show(&got));
    Ok(())
}

/// Transactions of several statements, committed or not.
fn changes(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let db = Db::new(64, IsolationLevel::ReadCommitted);
    let mut tabs = vec![];
    for k in 0..1 + rng.below(2) {
        tabs.push(new_table(rng, &db, k)?);
    }
    for _ in 0..12 {
        let tx = db.begin(*rng.pick(&[IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable]));
        let before: Vec<Vec<Row>> = tabs.iter().map(|t| t.rows.clone()).collect();
        let mut done = String::new();
        let mut failed = false;
        for _ in 0..1 + rng.below(4) {
            let at = rng.below(tabs.len());
            let (sql, want, kind) = change(rng, &tabs, at);
            done = format!("{done}{sql};\n");
            let got = db.exec_in(&sql, &tx);
            ctx.eval(1);
            ctx.count(&format!("statements: {kind}"), 1);
            ctx.sample("statement", || json!({"sql": sql, "accepted": got.is_ok()}));
            match (got, want) {
                (Ok(_), Change::To(to) | Change::Maybe(to)) => tabs[at].rows = to,
                (Err(e), Change::Maybe(_)) if e.contains("match INSERT target") => {
                    ctx.count("statements refused, as they may be", 1);
                    failed = true;
                    break;
                },
                (Err(e), Change::Maybe(_)) => return Err(format!("refused: {e}\n{done}")),
                (Err(e), Change::To(_)) => return Err(format!("refused: {e}\n{done}")),
                (Ok(_), Change::Refused) => return Err(format!("accepted:\n{done}")),
                (Err(_), Change::Refused) => {
                    failed = true;
                    break;
                },
            }
            table_is(&db, &tx, &tabs[at], &done)?;
            ctx.seen(&(kind, tabs[at].rows.len().min(40)));
            if tabs[at].rows.len() > 60 {
                break;
            }
        }
        if failed || rng.chance(1, 3) {
            done += "ROLLBACK";
            db.abort(tx);
            for (t, rows) in tabs.iter_mut().zip(before) {
                t.rows = rows;
            }
        } else {
            done += "COMMIT";
            check!(db.commit(tx), "the commit failed after\n{done}");
        }
        let tx = db.begin(IsolationLevel::ReadCommitted);
        for t in &tabs {
            table_is(&db, &tx, t, &done)?;
        }
        check!(db.commit(tx), "a reader's commit failed");
    }
    Ok(())
}

/// What is known to go wrong, each on its own input.
fn findings(ctx: &Ctx) {
    let run = |setup: &[&str], sql: &str| -> Result<String, String> {
        let db = Db::new(64, IsolationLevel::ReadCommitted);
        for s in setup {
            db.exec(s).map_err(|e| format!("{s}: {e}"))?;
        }
        Ok(match db.exec(sql) {
            Ok(r) => {
                let mut v: Vec<String> = r.1.rows.iter().map(|r| r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")).collect();
                if !sql.contains("ORDER BY") {
                    v.sort();
                }
                v.join(", ")
            },
            Err(e) => format!("error: {e}"),
        })
    };
    let t = ["CREATE TABLE t (a INTEGER, b INTEGER)", "INSERT INTO t VALUES (1, 10), (2, 10), (3, 20)"];
    let probe = |key: &str, sql: &str, want: &str| {
        ctx.probe(key, || {
            let got = run(&t, sql)?;
            // refusing what is not supported is right too
            check!(got == want || got.starts_with("error: "), "{sql} answers ({got}) instead of ({want})");
            Ok(())
        });
    };
    probe("count_distinct", "SELECT COUNT(DISTINCT b) FROM t", "2");
    probe("aggregate_in_expression", "SELECT SUM(b) + 1 FROM t", "41");
    probe("order_by_position", "SELECT a FROM t ORDER BY 1 DESC", "3, 2, 1");
    probe("order_by_aggregate", "SELECT b, COUNT(*) FROM t GROUP BY b ORDER BY COUNT(*)", "20 1, 10 2");
    probe("group_by_expression", "SELECT b + 1, COUNT(*) FROM t GROUP BY b + 1", "11 2, 21 1");
    probe("exists_subquery", "SELECT a FROM t WHERE EXISTS (SELECT a FROM t WHERE a > 100)", "");
    probe("scalar_subquery", "SELECT a FROM t WHERE b = (SELECT MAX(b) FROM t)", "3");
    probe("in_subquery", "SELECT a FROM t WHERE b IN (SELECT b FROM t WHERE a = 1)", "1, 2");
    let refuse = |key: &str, table: &str, first: &str, sql: &str| {
        ctx.probe(key, || {
            let got = run(&[table, first], sql)?;
            check!(got.starts_with("error: "), "{table}; {first}; {sql} is accepted");
            Ok(())
        });
    };
    refuse("sql_primary_key", "CREATE TABLE t (a INTEGER PRIMARY KEY)", "INSERT INTO t VALUES (1)", "INSERT INTO t VALUES (1)");
    refuse("sql_not_null", "CREATE TABLE t (a INTEGER NOT NULL)", "INSERT INTO t VALUES (1)", "INSERT INTO t VALUES (NULL)");
    refuse("sql_check", "CREATE TABLE t (a INTEGER CHECK (a > 0))", "INSERT INTO t VALUES (1)", "INSERT INTO t VALUES (-1)");
    refuse("sql_varchar_length", "CREATE TABLE t (a VARCHAR(3))", "INSERT INTO t VALUES ('abc')", "INSERT INTO t VALUES ('abcd')");
    refuse("insert_column_twice", "CREATE TABLE t (a INTEGER, b INTEGER)", "INSERT INTO t VALUES (1, 2)", "INSERT INTO t (a, a) VALUES (3, 4)");
    ctx.probe("update_grows", || {
        let rows: Vec<String> = (0..40).map(|i| format!("INSERT INTO t VALUES ({i}, '{}')", "x".repeat(90))).collect();
        let long = "y".repeat(2000);
        let update = format!("UPDATE t SET s = '{long}' WHERE a = 3");
        let mut setup = vec!["CREATE TABLE t (a INTEGER, s VARCHAR(3000))"];
        setup.extend(rows.iter().map(|r| r.as_str()));
        setup.push(&update);
        let got = run(&setup, "SELECT s FROM t WHERE a = 3").map_err(|e| e.replace(&long, "<2000 characters>"))?;
        check!(got == long, "the row has {} characters instead of 2000", got.len());
        Ok(())
    });
    ctx.probe("sql_default", || {
        let got = run(&["CREATE TABLE t (a INTEGER, b INTEGER DEFAULT 7)", "INSERT INTO t (a) VALUES (1)"], "SELECT a, b FROM t")?;
        check!(got == "1 7", "a column left out gets ({got}) and not its DEFAULT (1 7)");
        Ok(())
    });
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (query shape | statement kind, table size); SQL text given to the real parser, planner, optimizer and executors returns exactly the rows, and makes exactly the changes, that a reference working on the statement's own tree demands");
    ctx.assume("a condition that has no value on a row refuses the row or the statement");
    findings(ctx);
    ctx.explore("select", 8, 7.0, 40, 10_000_000, select);
    ctx.explore("changes", 8, 5.0, 40, 10_000_000, changes);
}

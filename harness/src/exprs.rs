//! P20: expressions. Random typed expression trees evaluated by the real evaluator, over one row
//! and over the same row split in two, against an independent three-valued reference evaluator.
use std::cmp::Ordering;
use std::sync::Arc;

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::all_expression::AllExpression;
use ferrite::sql::execution::expressions::any_expression::AnyExpression;
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::between_expression::BetweenExpression;
use ferrite::sql::execution::expressions::binary_op_expression::BinaryOpExpression;
use ferrite::sql::execution::expressions::case_expression::CaseExpression;
use ferrite::sql::execution::expressions::cast_expression::CastExpression;
use ferrite::sql::execution::expressions::ceil_floor_expression::{CeilFloorExpression, CeilFloorOperation};
use ferrite::sql::execution::expressions::coalesce_expression::CoalesceExpression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::in_expression::InExpression;
use ferrite::sql::execution::expressions::is_check_expression::{IsCheckExpression, IsCheckType};
use ferrite::sql::execution::expressions::is_distinct_expression::IsDistinctExpression;
use ferrite::sql::execution::expressions::like_expression::LikeExpression;
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::expressions::overlay_expression::OverlayExpression;
use ferrite::sql::execution::expressions::position_expression::PositionExpression;
use ferrite::sql::execution::expressions::regex_expression::{RegexExpression, RegexOperator};
use ferrite::sql::execution::expressions::string_expression::{StringExpression, StringExpressionType};
use ferrite::sql::execution::expressions::substring_expression::SubstringExpression;
use ferrite::sql::execution::expressions::trim_expression::{TrimExpression, TrimType};
use ferrite::sql::execution::expressions::unary_op_expression::UnaryOpExpression;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use serde_json::json;
use sqlparser::ast::{BinaryOperator, UnaryOperator};

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::rng::Rng;
use crate::values::{int_of, mk_int, reference};

type Ty = TypeId;
const INTS: [Ty; 4] = [Ty::TinyInt, Ty::SmallInt, Ty::Integer, Ty::BigInt];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
pub const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

/// The tree as the reference sees it. The bool after some variants picks the real node used.
#[derive(Clone, Debug)]
pub enum Ex {
    Const(Value),
    Col(usize, Ty),
    Cmp(Op, Box<Ex>, Box<Ex>, bool),
    Logic(bool, Box<Ex>, Box<Ex>, bool),
    Not(Box<Ex>, bool),
    Between(Box<Ex>, Box<Ex>, Box<Ex>, bool),
    In(Box<Ex>, Vec<Value>, bool),
    Quant(bool, Op, Box<Ex>, Vec<Value>),
    Case(Option<Box<Ex>>, Vec<(Ex, Ex)>, Option<Box<Ex>>),
    Coalesce(Vec<Ex>),
    Like(Box<Ex>, Box<Ex>, Option<char>, bool, bool),
    Regex(Box<Ex>, Box<Ex>, Pat),
    IsNull(Box<Ex>, bool),
    IsTruth(u8, Box<Ex>, bool),
    Distinct(Box<Ex>, Box<Ex>, bool),
    Neg(Box<Ex>),
    Arith(char, Box<Ex>, Box<Ex>, bool),
    Cast(Box<Ex>, Ty),
    Substr(Box<Ex>, Box<Ex>, Option<Box<Ex>>),
    Trim(u8, Box<Ex>, Option<Box<Ex>>),
    Position(Box<Ex>, Box<Ex>),
    Overlay(Box<Ex>, Box<Ex>, Box<Ex>, Option<Box<Ex>>),
    UpLow(bool, Box<Ex>),
    Ceil(bool, Box<Ex>),
    Concat(Box<Ex>, Box<Ex>),
}
use Ex::*;
/// What a regular expression means; its text is the second operand of `Regex`.
#[derive(Clone, Debug)]
pub struct Pat {
    pub items: Vec<(It, bool)>,
    pub start: bool,
    pub end: bool,
    /// 0 ~, 1 ~*, 2 SIMILAR TO, 3 RLIKE
    pub kind: u8,
    pub neg: bool,
    pub esc: Option<char>,
}
/// One item of a pattern; the flag next to it says "any number of times".
#[derive(Clone, Debug)]
pub enum It {
    Lit(char),
    Any,
    Set(Vec<char>),
}

fn name(e: &Ex) -> String {
    let s = format!("{e:?}");
    s.split(['(', ' ']).next().unwrap().to_string()
}
pub fn ty(e: &Ex) -> Ty {
    match e {
        Const(v) => v.get_type_id(),
        Col(_, t) => *t,
        Cmp(..) | Logic(..) | Not(..) | Between(..) | In(..) | Quant(..) | Like(..) | Regex(..) | IsNull(..) | IsTruth(..) | Distinct(..) => Ty::Boolean,
        Case(_, w, _) => ty(&w[0].1),
        Coalesce(v) => ty(&v[0]),
        Neg(e) | Ceil(_, e) => ty(e),
        Arith(_, a, b, _) => rank(ty(a), ty(b)),
        Cast(_, t) => *t,
        Position(..) => Ty::Integer,
        Substr(..) | Trim(..) | Overlay(..) | UpLow(..) | Concat(..) => Ty::VarChar,
    }
}
fn rank(a: Ty, b: Ty) -> Ty {
    let r = |t: Ty| [Ty::TinyInt, Ty::SmallInt, Ty::Integer, Ty::BigInt, Ty::Decimal].iter().position(|x| *x == t).unwrap_or(4);
    if r(a) >= r(b) { a } else { b }
}

// ---------------------------------------------------------------- generation

fn text(rng: &mut Rng) -> String {
    let n = rng.below(6);
    (0..n).map(|_| *rng.pick(&['a', 'b', 'A', 'é', '\u{1F980}', ' ', '%', '_'])).collect()
}
pub fn small(rng: &mut Rng, t: Ty) -> Value {
    if rng.chance(1, 7) {
        return Value::new_with_type(Val::Null, t);
    }
    match t {
        Ty::Boolean => Value::new(rng.chance(1, 2)),
        Ty::Decimal => Value::new(rng.range(-24, 24) as f64 / *rng.pick(&[1.0, 2.0, 4.0])),
        Ty::Float => Value::new_with_type(Val::Float(rng.range(-24, 24) as f32 / *rng.pick(&[1.0, 2.0])), t),
        Ty::VarChar => Value::new(text(rng)),
        Ty::Char => Value::new_with_type(Val::ConstLen(text(rng)), t),
        t => {
            let (lo, hi): (i64, i64) = match t {
                Ty::TinyInt => (i8::MIN as i64, i8::MAX as i64),
                Ty::SmallInt => (i16::MIN as i64, i16::MAX as i64),
                Ty::Integer => (i32::MIN as i64, i32::MAX as i64),
                _ => (i64::MIN, i64::MAX),
            };
            let i = match rng.below(14) {
                0 => lo,
                1 => hi,
                2 => hi - 1,
                3 => 100,
                _ => rng.range(-6, 6),
            };
            mk_int(t, i as i128).unwrap()
        },
    }
}
fn any_num(rng: &mut Rng) -> Ty {
    *rng.pick(&[Ty::Integer, Ty::Integer, Ty::Integer, Ty::BigInt, Ty::SmallInt, Ty::TinyInt, Ty::Decimal])
}
fn leaf(rng: &mut Rng, t: Ty, cols: &[Ty]) -> Ex {
    let at: Vec<usize> = (0..cols.len()).filter(|i| cols[*i] == t).collect();
    if !at.is_empty() && rng.chance(3, 4) { Col(*rng.pick(&at), t) } else { Const(small(rng, t)) }
}
fn bx(rng: &mut Rng, t: Ty, d: usize, cols: &[Ty]) -> Box<Ex> {
    Box::new(tree(rng, t, d, cols))
}
/// Two types that compare with each other.
fn pair(rng: &mut Rng) -> (Ty, Ty) {
    match rng.below(8) {
        0 => (Ty::VarChar, Ty::VarChar),
        1 => (Ty::Boolean, Ty::Boolean),
        2 => (Ty::VarChar, Ty::Char),
        3 => (Ty::Float, *rng.pick(&[Ty::Float, Ty::Decimal])),
        4 | 5 => {
            let t = any_num(rng);
            (t, t)
        },
        _ => (any_num(rng), any_num(rng)),
    }
}
fn list(rng: &mut Rng, t: Ty) -> Vec<Value> {
    let n = rng.below(5);
    (0..n).map(|_| small(rng, t)).collect()
}
/// A regular expression: its meaning and its text.
fn pattern(rng: &mut Rng) -> (Pat, String) {
    let kind = rng.below(4) as u8;
    let similar = kind == 2;
    let esc = (similar && rng.chance(1, 3)).then(|| *rng.pick(&['!', '\\']));
    let (start, end) = if similar { (true, true) } else { (rng.chance(1, 3), rng.chance(1, 3)) };
    let mut items = vec![];
    let mut text = String::new();
    if start && !similar {
        text.push('^');
    }
    for _ in 0..rng.below(5) {
        match rng.below(6) {
            0 => {
                let set: Vec<char> = (0..1 + rng.below(3)).map(|_| *rng.pick(&['a', 'b', 'A', 'é', ' '])).collect();
                text.push('[');
                text.extend(&set);
                text.push(']');
                items.push((It::Set(set), false));
            },
            1 | 2 => {
                let many = rng.chance(1, 2);
                text.push_str(match (similar, many) {
                    (true, true) => "%",
                    (true, false) => "_",
                    (false, true) => ".*",
                    (false, false) => ".",
                });
                items.push((It::Any, many));
            },
            3 if similar && esc.is_some() => {
                let c = *rng.pick(&['%', '_', 'a']);
                text.push(esc.unwrap());
                text.push(c);
                items.push((It::Lit(c), false));
            },
            _ => {
                let c = *rng.pick(&['a', 'b', 'A', 'é', '\u{1F980}', ' ']);
                text.push(c);
                let many = !similar && rng.chance(1, 4);
                if many {
                    text.push('*');
                }
                items.push((It::Lit(c), many));
            },
        }
    }
    if end && !similar {
        text.push('$');
    }
    (Pat { items, start, end, kind, neg: rng.chance(1, 3), esc }, text)
}
pub fn tree(rng: &mut Rng, t: Ty, d: usize, cols: &[Ty]) -> Ex {
    if d == 0 || rng.chance(1, 6) {
        return leaf(rng, t, cols);
    }
    let d = d - 1;
    if rng.chance(1, 8) {
        let n = 1 + rng.below(3);
        return Coalesce((0..n).map(|_| tree(rng, t, d, cols)).collect());
    }
    if rng.chance(1, 8) {
        let n = 1 + rng.below(3);
        let base = rng.chance(1, 2).then(|| *rng.pick(&[Ty::Integer, Ty::VarChar, Ty::Decimal, Ty::Boolean]));
        let b = base.map(|bt| bx(rng, bt, d.min(1), cols));
        let arms = (0..n).map(|_| (tree(rng, base.unwrap_or(Ty::Boolean), d.min(2), cols), tree(rng, t, d, cols))).collect();
        let e = rng.chance(2, 3).then(|| bx(rng, t, d, cols));
        return Case(b, arms, e);
    }
    match t {
        Ty::Boolean => match rng.below(13) {
            0..=2 => {
                let (a, b) = pair(rng);
                Cmp(*rng.pick(&OPS), bx(rng, a, d, cols), bx(rng, b, d, cols), rng.chance(1, 3))
            },
            3..=5 => Logic(rng.chance(1, 2), bx(rng, t, d, cols), bx(rng, t, d, cols), rng.chance(1, 2)),
            6 => Not(bx(rng, t, d, cols), rng.chance(1, 2)),
            7 => {
                let (a, b) = pair(rng);
                let c = if a == b || rng.chance(1, 2) { b } else { a };
                Between(bx(rng, a, d, cols), bx(rng, b, d, cols), bx(rng, c, d, cols), rng.chance(1, 2))
            },
            8 => {
                let a = if rng.chance(1, 4) { Ty::VarChar } else { any_num(rng) };
                let mut l = list(rng, a);
                l.push(small(rng, a));
                In(bx(rng, a, d, cols), l, rng.chance(1, 2))
            },
            9 => {
                let a = if rng.chance(1, 4) { Ty::VarChar } else { any_num(rng) };
                Quant(rng.chance(1, 2), *rng.pick(&OPS), bx(rng, a, d, cols), list(rng, a))
            },
            10 if rng.chance(1, 2) => {
                let (p, text) = pattern(rng);
                let pat = if rng.chance(1, 8) { Value::new_with_type(Val::Null, Ty::VarChar) } else { Value::new(text) };
                Regex(bx(rng, Ty::VarChar, d, cols), Box::new(Const(pat)), p)
            },
            10 => {
                let esc = rng.chance(1, 3).then_some('\\');
                let p = if esc.is_some() {
                    // escapes only what has to be escaped
                    let mut s = String::new();
                    for _ in 0..rng.below(6) {
                        s.push_str(rng.pick(&["a", "b", "%", "_", "\\%", "\\_", "\\\\", "é", "A"]));
                    }
                    Box::new(Const(Value::new(s)))
                } else if rng.chance(1, 2) {
                    bx(rng, Ty::VarChar, d.min(1), cols)
                } else {
                    let n = rng.below(6);
                    let s: String = (0..n).map(|_| *rng.pick(&['a', 'b', 'A', 'é', '%', '%', '_', '\u{1F980}'])).collect();
                    Box::new(Const(Value::new(s)))
                };
                Like(bx(rng, Ty::VarChar, d, cols), p, esc, rng.chance(1, 2), rng.chance(1, 2))
            },
            11 => {
                if rng.chance(1, 2) {
                    let a = if rng.chance(1, 3) { Ty::VarChar } else { any_num(rng) };
                    IsNull(bx(rng, a, d, cols), rng.chance(1, 2))
                } else {
                    IsTruth(rng.below(3) as u8, bx(rng, t, d, cols), rng.chance(1, 2))
                }
            },
            _ => {
                let (a, b) = pair(rng);
                Distinct(bx(rng, a, d, cols), bx(rng, b, d, cols), rng.chance(1, 2))
            },
        },
        Ty::VarChar => match rng.below(7) {
            0 | 1 => {
                let it = *rng.pick(&INTS);
                let f = rng.chance(1, 2).then(|| bx(rng, it, d.min(1), cols));
                Substr(bx(rng, t, d, cols), bx(rng, Ty::Integer, d.min(1), cols), f)
            },
            2 => {
                let c = rng.chance(1, 2).then(|| bx(rng, t, d.min(1), cols));
                Trim(rng.below(3) as u8, bx(rng, t, d, cols), c)
            },
            3 => {
                let f = rng.chance(1, 2).then(|| bx(rng, Ty::Integer, d.min(1), cols));
                Overlay(bx(rng, t, d, cols), bx(rng, t, d, cols), bx(rng, Ty::Integer, d.min(1), cols), f)
            },
            4 => UpLow(rng.chance(1, 2), bx(rng, t, d, cols)),
            5 => Cast(bx(rng, Ty::Char, d, cols), t),
            _ => Concat(bx(rng, t, d, cols), bx(rng, t, d, cols)),
        },
        Ty::Char if rng.chance(1, 2) => Cast(bx(rng, Ty::VarChar, d, cols), t),
        Ty::Float | Ty::Char => leaf(rng, t, cols),
        _ => match rng.below(8) {
            0 => Neg(bx(rng, t, d, cols)),
            1 if t == Ty::Integer => Position(bx(rng, Ty::VarChar, d.min(1), cols), bx(rng, Ty::VarChar, d, cols)),
            1 | 2 if t == Ty::Decimal => Ceil(rng.chance(1, 2), bx(rng, t, d, cols)),
            2 | 3 => {
                let from: &[Ty] = match t {
                    Ty::Integer => &[Ty::Decimal, Ty::BigInt, Ty::Integer],
                    Ty::BigInt => &[Ty::Integer, Ty::Decimal, Ty::BigInt],
                    Ty::Decimal => &[Ty::Integer, Ty::BigInt, Ty::Decimal],
                    _ => &[],
                };
                if from.is_empty() {
                    leaf(rng, t, cols)
                } else {
                    let f = *rng.pick(from);
                    Cast(bx(rng, f, d, cols), t)
                }
            },
            _ => {
                // the wider operand has the type of the result
                let op = *rng.pick(&['+', '-', '*', '/', '%']);
                let other = if op != '%' && rng.chance(1, 3) {
                    let lower: Vec<Ty> = [Ty::TinyInt, Ty::SmallInt, Ty::Integer, Ty::BigInt, Ty::Decimal].into_iter().filter(|x| rank(*x, t) == t).collect();
                    *rng.pick(&lower)
                } else {
                    t
                };
                let (a, b) = if rng.chance(1, 2) { (t, other) } else { (other, t) };
                let real = op == '%' || rng.chance(1, 2);
                Arith(op, bx(rng, a, d, cols), bx(rng, b, d, cols), real)
            },
        },
    }
}

// ---------------------------------------------------------------- the real expression

fn c(t: Ty) -> Column {
    Column::new("x", t)
}
fn binop(op: Op) -> BinaryOperator {
    match op {
        Op::Eq => BinaryOperator::Eq,
        Op::Ne => BinaryOperator::NotEq,
        Op::Lt => BinaryOperator::Lt,
        Op::Le => BinaryOperator::LtEq,
        Op::Gt => BinaryOperator::Gt,
        Op::Ge => BinaryOperator::GtEq,
    }
}
fn vector(v: &[Value]) -> Arc<Expression> {
    Arc::new(Expression::Constant(ConstantExpression::new_vector(v.to_vec(), vec![])))
}
fn binary(l: Arc<Expression>, r: Arc<Expression>, op: BinaryOperator) -> Result<Expression, String> {
    BinaryOpExpression::new(l.clone(), r.clone(), op, vec![l, r]).map(Expression::BinaryOp)
}
/// `cut` is the number of columns of the left side.
pub fn build(e: &Ex, cut: usize) -> Arc<Expression> {
    let b = |e: &Ex| build(e, cut);
    let bool_c = c(Ty::Boolean);
    let comparison = |op: Op, l: Arc<Expression>, r: Arc<Expression>| {
        let t = match op {
            Op::Eq => ComparisonType::Equal,
            Op::Ne => ComparisonType::NotEqual,
            Op::Lt => ComparisonType::LessThan,
            Op::Le => ComparisonType::LessThanOrEqual,
            Op::Gt => ComparisonType::GreaterThan,
            Op::Ge => ComparisonType::GreaterThanOrEqual,
        };
        Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), t, vec![l, r]))
    };
    Arc::new(match e {
        Const(v) => Expression::Constant(ConstantExpression::new(v.clone(), c(v.get_type_id()), vec![])),
        Col(i, t) => Expression::ColumnRef(ColumnRefExpression::new((*i >= cut) as usize, *i, c(*t), vec![])),
        Cmp(op, l, r, bin) => {
            let (l, r) = (b(l), b(r));
            match binary(l.clone(), r.clone(), binop(*op)) {
                Ok(x) if *bin => x,
                _ => comparison(*op, l, r),
            }
        },
        Logic(and, l, r, bin) => {
            let (l, r) = (b(l), b(r));
            let op = if *and { BinaryOperator::And } else { BinaryOperator::Or };
            match binary(l.clone(), r.clone(), op) {
                Ok(x) if *bin => x,
                _ => Expression::Logic(LogicExpression::new(l.clone(), r.clone(), if *and { LogicType::And } else { LogicType::Or }, vec![l, r])),
            }
        },
        Not(e, un) => {
            let e = b(e);
            match UnaryOpExpression::new(e.clone(), UnaryOperator::Not) {
                Ok(x) if *un => Expression::UnaryOp(x),
                _ => Expression::Logic(LogicExpression::new_not(e)),
            }
        },
        Between(e, l, h, neg) => Expression::Between(BetweenExpression::new(b(e), b(l), b(h), *neg, bool_c)),
        In(e, l, neg) => Expression::In(InExpression::new_list(b(e), vector(l), *neg, bool_c)),
        Quant(true, op, e, l) => Expression::All(AllExpression::new(b(e), vector(l), binop(*op))),
        Quant(false, op, e, l) => Expression::Any(AnyExpression::new(b(e), vector(l), binop(*op), l.len() % 2 == 0)),
        Case(base, arms, els) => {
            let t = ty(e);
            // the declared type of an arm may be less exact than ours: COALESCE only declares it
            let arm = |e: &Ex| {
                let e = b(e);
                if e.get_return_type().get_type() == t { e } else { Arc::new(Expression::Coalesce(CoalesceExpression::new(vec![e], c(t)))) }
            };
            Expression::Case(
                CaseExpression::new(
                    base.as_ref().map(|e| b(e)),
                    arms.iter().map(|a| b(&a.0)).collect(),
                    arms.iter().map(|a| arm(&a.1)).collect(),
                    els.as_ref().map(|e| arm(e)),
                )
                .expect("arms of one type"),
            )
        },
        Coalesce(v) => Expression::Coalesce(CoalesceExpression::new(v.iter().map(b).collect(), c(ty(&v[0])))),
        Like(e, p, esc, neg, cs) => Expression::Like(LikeExpression::new(b(e), b(p), *esc, *neg, *cs, bool_c)),
        Regex(e, p, pat) => {
            let op = match (pat.kind, pat.neg) {
                (0, false) => RegexOperator::Match,
                (0, true) => RegexOperator::NotMatch,
                (1, false) => RegexOperator::IMatch,
                (1, true) => RegexOperator::NotIMatch,
                (2, false) => RegexOperator::SimilarTo,
                (2, true) => RegexOperator::NotSimilarTo,
                (_, false) => RegexOperator::RLike,
                (_, true) => RegexOperator::NotRLike,
            };
            Expression::Regex(RegexExpression::new(b(e), b(p), op, pat.esc.map(String::from), bool_c))
        },
        IsNull(e, neg) => {
            if *neg && matches!(**e, Col(..)) {
                let e = b(e);
                Expression::Comparison(ComparisonExpression::new(e.clone(), e.clone(), ComparisonType::IsNotNull, vec![e.clone(), e]))
            } else {
                Expression::IsCheck(IsCheckExpression::new(b(e), IsCheckType::Null { negated: *neg }, bool_c))
            }
        },
        IsTruth(k, e, neg) => {
            let negated = *neg;
            let k = match k {
                0 => IsCheckType::True { negated },
                1 => IsCheckType::False { negated },
                _ => IsCheckType::Unknown { negated },
            };
            Expression::IsCheck(IsCheckExpression::new(b(e), k, bool_c))
        },
        Distinct(l, r, neg) => Expression::IsDistinct(IsDistinctExpression::new(b(l), b(r), *neg, bool_c)),
        Neg(e) => Expression::UnaryOp(UnaryOpExpression::new(b(e), UnaryOperator::Minus).expect("a number")),
        Arith(op, l, r, bin) => {
            let (l, r) = (b(l), b(r));
            let bop = match op {
                '+' => BinaryOperator::Plus,
                '-' => BinaryOperator::Minus,
                '*' => BinaryOperator::Multiply,
                '/' => BinaryOperator::Divide,
                _ => BinaryOperator::Modulo,
            };
            let aop = match op {
                '+' => ArithmeticOp::Add,
                '-' => ArithmeticOp::Subtract,
                '*' => ArithmeticOp::Multiply,
                _ => ArithmeticOp::Divide,
            };
            match binary(l.clone(), r.clone(), bop) {
                Ok(x) if *bin => x,
                _ => Expression::Arithmetic(ArithmeticExpression::new(aop, vec![l, r])),
            }
        },
        Cast(e, t) => Expression::Cast(CastExpression::new(b(e), *t)),
        Substr(s, f, n) => Expression::Substring(SubstringExpression::new(b(s), b(f), n.as_ref().map(|e| b(e)))),
        Trim(k, s, ch) => {
            let k = match k {
                0 => TrimType::Both,
                1 => TrimType::Leading,
                _ => TrimType::Trailing,
            };
            let mut ch2 = vec![b(s)];
            ch2.extend(ch.as_ref().map(|e| b(e)));
            Expression::Trim(TrimExpression::new(k, ch2, c(Ty::VarChar)))
        },
        Position(n, h) => Expression::Position(PositionExpression::new(b(n), b(h))),
        Overlay(s, w, f, n) => Expression::Overlay(OverlayExpression::new(b(s), b(w), b(f), n.as_ref().map(|e| b(e)), c(Ty::VarChar))),
        UpLow(up, e) => {
            let e = b(e);
            Expression::String(StringExpression::new(e.clone(), if *up { StringExpressionType::Upper } else { StringExpressionType::Lower }, vec![e]))
        },
        Ceil(up, e) => Expression::CeilFloor(CeilFloorExpression::new(if *up { CeilFloorOperation::Ceil } else { CeilFloorOperation::Floor }, b(e), None, None).expect("ceil of a decimal")),
        Concat(l, r) => binary(b(l), b(r), BinaryOperator::StringConcat).expect("|| of texts"),
    })
}
fn rebuild(e: &Arc<Expression>) -> Arc<Expression> {
    let ch: Vec<_> = e.get_children().iter().map(rebuild).collect();
    if ch.is_empty() { e.clone() } else { e.clone_with_children(ch) }
}

// ---------------------------------------------------------------- the reference

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Null,
    B(bool),
    /// exact number: its value, typed
    N(Value),
    T(String),
}
/// What must come out: `r`, or with `err_ok` an error instead. Err(()) is "must be an error".
#[derive(Clone, Debug)]
pub struct Out {
    pub r: Result<R, ()>,
    pub err_ok: bool,
}
fn ok(r: R) -> Out {
    Out { r: Ok(r), err_ok: false }
}
const ERR: Out = Out { r: Err(()), err_ok: true };

pub fn of_value(v: &Value) -> R {
    match v.get_val() {
        Val::Null => R::Null,
        Val::Boolean(b) => R::B(*b),
        Val::VarLen(s) | Val::ConstLen(s) => R::T(s.clone()),
        _ => R::N(v.clone()),
    }
}
pub fn f64_of(v: &Value) -> f64 {
    match v.get_val() {
        Val::Decimal(f) => *f,
        Val::Float(f) => *f as f64,
        _ => int_of(v).unwrap() as f64,
    }
}
pub fn order(a: &R, b: &R) -> Option<Ordering> {
    match (a, b) {
        (R::B(x), R::B(y)) => Some(x.cmp(y)),
        (R::T(x), R::T(y)) => Some(x.cmp(y)),
        (R::N(x), R::N(y)) => reference(x, y).flatten(),
        _ => None,
    }
}
/// Three-valued comparison.
fn compare(op: Op, a: &R, b: &R) -> Option<bool> {
    if *a == R::Null || *b == R::Null {
        return None;
    }
    let o = order(a, b).expect("comparable");
    Some(match op {
        Op::Eq => o == Ordering::Equal,
        Op::Ne => o != Ordering::Equal,
        Op::Lt => o == Ordering::Less,
        Op::Le => o != Ordering::Greater,
        Op::Gt => o == Ordering::Greater,
        Op::Ge => o != Ordering::Less,
    })
}
fn tri(b: Option<bool>) -> R {
    b.map_or(R::Null, R::B)
}
pub fn truth(r: &R) -> Option<bool> {
    match r {
        R::B(b) => Some(*b),
        _ => None,
    }
}
fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn not(a: Option<bool>) -> Option<bool> {
    a.map(|b| !b)
}
fn like(s: &[char], p: &[char], esc: Option<char>, cs: bool) -> bool {
    let same = |a: char, b: char| if cs { a == b } else { a.eq_ignore_ascii_case(&b) };
    match p.first() {
        None => s.is_empty(),
        Some(x) if esc == Some(*x) && p.len() > 1 => !s.is_empty() && same(s[0], p[1]) && like(&s[1..], &p[2..], esc, cs),
        Some('%') => (0..=s.len()).any(|i| like(&s[i..], &p[1..], esc, cs)),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..], esc, cs),
        Some(x) => !s.is_empty() && same(s[0], *x) && like(&s[1..], &p[1..], esc, cs),
    }
}
fn matches_at(s: &[char], p: &[(It, bool)], end: bool, fold: bool) -> bool {
    let Some((it, many)) = p.first() else { return !end || s.is_empty() };
    let same = |a: char, b: char| if fold { a.to_lowercase().eq(b.to_lowercase()) } else { a == b };
    let one = !s.is_empty()
        && match it {
            It::Lit(c) => same(s[0], *c),
            It::Any => true,
            It::Set(v) => v.iter().any(|c| same(s[0], *c)),
        };
    if *many { matches_at(s, &p[1..], end, fold) || (one && matches_at(&s[1..], p, end, fold)) } else { one && matches_at(&s[1..], &p[1..], end, fold) }
}
fn matches(s: &[char], p: &Pat) -> bool {
    let fold = p.kind == 1 || p.kind == 3;
    let from = if p.start { 0 } else { s.len() };
    (0..=from).any(|i| matches_at(&s[i..], &p.items, p.end, fold))
}
fn num(v: Option<Value>) -> Out {
    v.map_or(ERR, |v| ok(R::N(v)))
}
fn arith(op: char, a: &Value, b: &Value) -> Out {
    let t = rank(a.get_type_id(), b.get_type_id());
    let mixed = a.get_type_id() != b.get_type_id();
    let mut o = if let (Some(x), Some(y)) = (int_of(a), int_of(b)) {
        if y == 0 && op == '%' {
            return Out { r: Ok(R::Null), err_ok: true };
        }
        if y == 0 && op == '/' {
            return ERR;
        }
        let z = match op {
            '+' => x + y,
            '-' => x - y,
            '*' => x * y,
            '/' => x / y,
            _ => x % y,
        };
        num(mk_int(t, z))
    } else {
        let (x, y) = (f64_of(a), f64_of(b));
        if y == 0.0 && op == '%' {
            return Out { r: Ok(R::Null), err_ok: true };
        }
        if y == 0.0 && op == '/' {
            return ERR;
        }
        ok(R::N(Value::new(match op {
            '+' => x + y,
            '-' => x - y,
            '*' => x * y,
            '/' => x / y,
            _ => x % y,
        })))
    };
    // operands of two types are not supported everywhere, and nor is % of decimals
    o.err_ok |= mixed || op == '%';
    o
}
/// Evaluates `es` strictly; None if a NULL is among them.
fn strict(es: &[&Ex], row: &[Value]) -> Result<(Option<Vec<R>>, bool), Out> {
    let mut v = vec![];
    let mut e = false;
    for x in es {
        let o = eval(x, row);
        e |= o.err_ok;
        match o.r {
            Ok(r) => v.push(r),
            Err(()) => return Err(ERR),
        }
    }
    Ok((if v.contains(&R::Null) { None } else { Some(v) }, e))
}
fn s_of(r: &R) -> Vec<char> {
    match r {
        R::T(s) => s.chars().collect(),
        r => panic!("text expected, got {r:?}"),
    }
}
fn i_of(r: &R) -> i128 {
    match r {
        R::N(v) => int_of(v).unwrap(),
        r => panic!("integer expected, got {r:?}"),
    }
}
fn n_of(r: &R) -> &Value {
    match r {
        R::N(v) => v,
        r => panic!("number expected, got {r:?}"),
    }
}
/// NULL if any operand is NULL, else `f`.
fn lifted(es: &[&Ex], row: &[Value], f: impl FnOnce(&[R]) -> Out) -> Out {
    match strict(es, row) {
        Err(o) => o,
        Ok((None, e)) => Out { r: Ok(R::Null), err_ok: e },
        Ok((Some(v), e)) => {
            let mut o = f(&v);
            o.err_ok |= e;
            o
        },
    }
}
pub fn eval(e: &Ex, row: &[Value]) -> Out {
    match e {
        Const(v) => ok(of_value(v)),
        Col(i, _) => ok(of_value(&row[*i])),
        Cmp(op, a, b, _) => lifted(&[a, b], row, |v| ok(tri(compare(*op, &v[0], &v[1])))),
        Logic(is_and, a, b, _) => {
            let (x, y) = (eval(a, row), eval(b, row));
            // OR is the dual of AND
            let flip = |t: Option<bool>| if *is_and { t } else { not(t) };
            let fx = x.r.as_ref().ok().map(|r| flip(truth(r)));
            let fy = y.r.as_ref().ok().map(|r| flip(truth(r)));
            let err_ok = x.err_ok || y.err_ok;
            match (fx, fy) {
                (Some(p), Some(q)) => Out { r: Ok(tri(flip(and(p, q)))), err_ok },
                (Some(Some(false)), None) | (None, Some(Some(false))) => Out { r: Ok(tri(flip(Some(false)))), err_ok: true },
                _ => ERR,
            }
        },
        Not(a, _) => lifted(&[a], row, |v| ok(tri(not(truth(&v[0]))))),
        Between(a, l, h, neg) => {
            let o = [eval(a, row), eval(l, row), eval(h, row)];
            let err_ok = o.iter().any(|o| o.err_ok);
            match (&o[0].r, &o[1].r, &o[2].r) {
                (Ok(a), Ok(l), Ok(h)) => {
                    let t = and(compare(Op::Ge, a, l), compare(Op::Le, a, h));
                    Out { r: Ok(tri(if *neg { not(t) } else { t })), err_ok }
                },
                // one bound may decide alone
                (Ok(a), Ok(l), Err(())) if compare(Op::Ge, a, l) == Some(false) => Out { r: Ok(R::B(*neg)), err_ok: true },
                (Ok(a), Err(()), Ok(h)) if compare(Op::Le, a, h) == Some(false) => Out { r: Ok(R::B(*neg)), err_ok: true },
                _ => ERR,
            }
        },
        In(a, l, neg) => {
            let o = eval(a, row);
            let Ok(a) = o.r else { return ERR };
            let cs: Vec<_> = l.iter().map(|v| compare(Op::Eq, &a, &of_value(v))).collect();
            let t = if cs.contains(&Some(true)) {
                Some(true)
            } else if cs.contains(&None) {
                None
            } else {
                Some(false)
            };
            Out { r: Ok(tri(if *neg { not(t) } else { t })), err_ok: o.err_ok }
        },
        Quant(all, op, a, l) => {
            let o = eval(a, row);
            let Ok(a) = o.r else { return ERR };
            let cs: Vec<_> = l.iter().map(|v| compare(*op, &a, &of_value(v))).collect();
            let t = if cs.contains(&Some(!*all)) {
                Some(!*all)
            } else if cs.contains(&None) {
                None
            } else {
                Some(*all)
            };
            Out { r: Ok(tri(t)), err_ok: o.err_ok }
        },
        Case(base, arms, els) => {
            let mut err_ok = false;
            let b = match base {
                None => None,
                Some(b) => {
                    let o = eval(b, row);
                    err_ok |= o.err_ok;
                    match o.r {
                        Ok(r) => Some(r),
                        Err(()) => return ERR,
                    }
                },
            };
            for (w, t) in arms {
                let o = eval(w, row);
                err_ok |= o.err_ok;
                let Ok(r) = o.r else { return ERR };
                let hit = match &b {
                    Some(b) => compare(Op::Eq, b, &r) == Some(true),
                    None => truth(&r) == Some(true),
                };
                if hit {
                    let mut o = eval(t, row);
                    o.err_ok |= err_ok;
                    return o;
                }
            }
            let mut o = els.as_ref().map_or(ok(R::Null), |e| eval(e, row));
            o.err_ok |= err_ok;
            o
        },
        Coalesce(v) => {
            let mut err_ok = false;
            for e in v {
                let mut o = eval(e, row);
                err_ok |= o.err_ok;
                o.err_ok = err_ok;
                match o.r {
                    Ok(R::Null) => continue,
                    _ => return o,
                }
            }
            Out { r: Ok(R::Null), err_ok }
        },
        Like(a, p, esc, neg, cs) => lifted(&[a, p], row, |v| ok(R::B(like(&s_of(&v[0]), &s_of(&v[1]), *esc, *cs) != *neg))),
        Regex(a, p, pat) => lifted(&[a, p], row, |v| ok(R::B(matches(&s_of(&v[0]), pat) != pat.neg))),
        IsNull(a, neg) => {
            let o = eval(a, row);
            let Ok(r) = o.r else { return ERR };
            Out { r: Ok(R::B((r == R::Null) != *neg)), err_ok: o.err_ok }
        },
        IsTruth(k, a, neg) => {
            let o = eval(a, row);
            let Ok(r) = o.r else { return ERR };
            let want = match k {
                0 => Some(true),
                1 => Some(false),
                _ => None,
            };
            Out { r: Ok(R::B((truth(&r) == want) != *neg)), err_ok: o.err_ok }
        },
        Distinct(a, b, neg) => {
            let (x, y) = (eval(a, row), eval(b, row));
            let err_ok = x.err_ok || y.err_ok;
            let (Ok(x), Ok(y)) = (x.r, y.r) else { return ERR };
            let d = match (&x, &y) {
                (R::Null, R::Null) => false,
                (R::Null, _) | (_, R::Null) => true,
                (x, y) => compare(Op::Ne, x, y) == Some(true),
            };
            Out { r: Ok(R::B(d != *neg)), err_ok }
        },
        Neg(a) => lifted(&[a], row, |v| {
            let v = n_of(&v[0]);
            match int_of(v) {
                Some(i) => num(mk_int(v.get_type_id(), -i)),
                None => ok(R::N(Value::new(-f64_of(v)))),
            }
        }),
        Arith(op, a, b, bin) => {
            let mut o = lifted(&[a, b], row, |v| arith(*op, n_of(&v[0]), n_of(&v[1])));
            // whether % and mixed types are supported at all may be decided before NULL is looked at
            o.err_ok |= ty(a) != ty(b) || *op == '%' || *bin && o.r == Ok(R::Null);
            o
        },
        Cast(a, t) => {
            let from = ty(a);
            lifted(&[a], row, |v| match (&v[0], *t) {
                (R::T(s), _) => ok(R::T(s.clone())),
                (R::N(x), Ty::Decimal) => ok(R::N(Value::new(f64_of(x)))),
                (R::N(x), t) if from == Ty::Decimal => {
                    let f = f64_of(x).round();
                    if f.abs() < 1e19 { num(mk_int(t, f as i128)) } else { ERR }
                },
                (R::N(x), t) => num(mk_int(t, int_of(x).unwrap())),
                (r, _) => ok(r.clone()),
            })
        },
        Substr(s, f, n) => {
            let mut es: Vec<&Ex> = vec![s, f];
            es.extend(n.as_deref());
            // operands after one that settles the result may be left alone
            let full = lifted(&es, row, |v| {
                let s = s_of(&v[0]);
                let from = i_of(&v[1]);
                let start = match from {
                    0 => 0,
                    f if f > 0 => f - 1,
                    f => (s.len() as i128 + f).max(0),
                }
                .min(s.len() as i128) as usize;
                let len = v.get(2).map_or(s.len() as i128, i_of).clamp(0, (s.len() - start) as i128) as usize;
                ok(R::T(s[start..start + len].iter().collect()))
            });
            match (n, eval(s, row).r, eval(f, row).r) {
                // SUBSTRING past the end gives '' before it looks at FOR
                (Some(_), Ok(R::T(t)), Ok(R::N(v))) if int_of(&v).unwrap() > t.chars().count() as i128 || t.is_empty() => Out { r: Err(()), err_ok: true }.or_text(full),
                (_, Ok(R::Null), _) => Out { r: Ok(R::Null), err_ok: true },
                (Some(_), _, Ok(R::Null)) => Out { r: Ok(R::Null), err_ok: true },
                _ => full,
            }
        },
        Trim(k, s, ch) => {
            let mut es: Vec<&Ex> = vec![s];
            es.extend(ch.as_deref());
            if eval(s, row).r == Ok(R::Null) {
                return Out { r: Ok(R::Null), err_ok: true };
            }
            lifted(&es, row, |v| {
                let mut s = s_of(&v[0]);
                let set = v.get(1).map_or(vec![' ', '\t', '\n', '\r'], s_of);
                if *k != 2 {
                    while s.first().is_some_and(|c| set.contains(c)) {
                        s.remove(0);
                    }
                }
                if *k != 1 {
                    while s.last().is_some_and(|c| set.contains(c)) {
                        s.pop();
                    }
                }
                ok(R::T(s.into_iter().collect()))
            })
        },
        Position(n, h) => lifted(&[n, h], row, |v| {
            let (n, h) = (s_of(&v[0]), s_of(&v[1]));
            let p = (0..=h.len()).find(|i| h[*i..].starts_with(&n)).map_or(0, |i| i + 1);
            num(mk_int(Ty::Integer, p as i128))
        }),
        Overlay(s, w, f, n) => {
            let mut es: Vec<&Ex> = vec![s, w, f];
            es.extend(n.as_deref());
            lifted(&es, row, |v| {
                let (s, w, f) = (s_of(&v[0]), s_of(&v[1]), i_of(&v[2]));
                let n = v.get(3).map_or(w.len() as i128, i_of);
                if f < 1 || n < 0 {
                    return ERR;
                }
                let at = ((f - 1) as usize).min(s.len());
                let end = ((f - 1 + n).min(s.len() as i128) as usize).max(at);
                ok(R::T(s[..at].iter().chain(&w).chain(&s[end..]).collect()))
            })
        },
        UpLow(up, a) => lifted(&[a], row, |v| {
            let s: String = s_of(&v[0]).into_iter().collect();
            ok(R::T(if *up { s.to_uppercase() } else { s.to_lowercase() }))
        }),
        Ceil(up, a) => lifted(&[a], row, |v| {
            let f = f64_of(n_of(&v[0]));
            ok(R::N(Value::new(if *up { f.ceil() } else { f.floor() })))
        }),
        Concat(a, b) => lifted(&[a, b], row, |v| ok(R::T(s_of(&v[0]).into_iter().chain(s_of(&v[1])).collect()))),
    }
}
impl Out {
    /// SUBSTRING past the end: '' or what the complete evaluation gives.
    fn or_text(self, full: Out) -> Out {
        match full.r {
            Ok(R::Null) | Err(()) => Out { r: Ok(R::T(String::new())), err_ok: true },
            _ => full,
        }
    }
}

// ---------------------------------------------------------------- judging

fn agrees(want: &Out, got: &Result<Value, String>) -> bool {
    match (&want.r, got) {
        (_, Err(_)) => want.err_ok,
        (Err(()), Ok(_)) => false,
        (Ok(w), Ok(g)) => match (w, of_value(g)) {
            (R::N(a), R::N(b)) => {
                a.get_type_id() == b.get_type_id()
                    && match (int_of(a), int_of(&b)) {
                        (Some(x), Some(y)) => x == y,
                        (None, None) => {
                            let (x, y) = (f64_of(a), f64_of(&b));
                            x == y || (x.is_nan() && y.is_nan())
                        },
                        _ => false,
                    }
            },
            (w, g) => *w == g,
        },
    }
}
/// SUBSTRING past the end with a NULL or erroneous length has two right answers; so has everything
/// above it. Such rows are not judged against the reference, only for agreement between the paths.
pub fn ambiguous(e: &Ex, row: &[Value]) -> bool {
    let kids: Vec<&Ex> = match e {
        Const(_) | Col(..) => vec![],
        Cmp(_, a, b, _) | Logic(_, a, b, _) | Distinct(a, b, _) | Arith(_, a, b, _) | Position(a, b) | Concat(a, b) => vec![a, b],
        Like(a, b, ..) | Regex(a, b, _) => vec![a, b],
        Not(a, _) | In(a, ..) | Quant(_, _, a, _) | IsNull(a, _) | IsTruth(_, a, _) | Neg(a) | Cast(a, _) | UpLow(_, a) | Ceil(_, a) => vec![a],
        Between(a, b, c, _) => vec![a, b, c],
        Case(b, arms, e) => b.as_deref().into_iter().chain(arms.iter().flat_map(|a| [&a.0, &a.1])).chain(e.as_deref()).collect(),
        Coalesce(v) => v.iter().collect(),
        Substr(a, b, c) => {
            if let Some(c) = c {
                let cr = eval(c, row).r;
                if cr == Ok(R::Null) || cr.is_err() {
                    return true;
                }
            }
            [Some(&**a), Some(&**b), c.as_deref()].into_iter().flatten().collect()
        },
        Trim(_, a, b) => std::iter::once(&**a).chain(b.as_deref()).collect(),
        Overlay(a, b, c, d) => [Some(&**a), Some(&**b), Some(&**c), d.as_deref()].into_iter().flatten().collect(),
    };
    kids.iter().any(|k| ambiguous(k, row))
}
fn show(r: &Result<Value, String>) -> String {
    match r {
        Ok(v) => format!("{:?} {:?}", v.get_type_id(), v.get_val()),
        Err(_) => "error".into(),
    }
}

fn case(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let pool = [
        Ty::Boolean,
        Ty::Integer,
        Ty::BigInt,
        Ty::Decimal,
        Ty::VarChar,
        Ty::SmallInt,
        Ty::TinyInt,
        Ty::Integer,
        Ty::VarChar,
        Ty::Boolean,
        Ty::Float,
        Ty::Char,
        Ty::Decimal,
    ];
    let n = 3 + rng.below(8);
    let cols: Vec<Ty> = (0..n).map(|_| *rng.pick(&pool)).collect();
    let cut = rng.below(n + 1);
    let mk = |ts: &[Ty], at: usize| Schema::new(ts.iter().enumerate().map(|(i, t)| Column::new(&format!("c{}", i + at), *t)).collect());
    let (all, left, right) = (mk(&cols, 0), mk(&cols[..cut], 0), mk(&cols[cut..], cut));
    for _ in 0..6 {
        let t = *rng.pick(&[Ty::Boolean, Ty::Boolean, Ty::Boolean, Ty::Integer, Ty::BigInt, Ty::Decimal, Ty::VarChar, Ty::SmallInt, Ty::TinyInt]);
        let depth = 1 + rng.below(4);
        let ex = tree(rng, t, depth, &cols);
        let real = build(&ex, cut);
        let again = rebuild(&real);
        for _ in 0..6 {
            let row: Vec<Value> = cols.iter().map(|t| small(rng, *t)).collect();
            let tup = Tuple::new(&row, &all, RID::new(0, 0));
            let (l, r) = (Tuple::new(&row[..cut], &left, RID::new(0, 0)), Tuple::new(&row[cut..], &right, RID::new(0, 1)));
            let want = eval(&ex, &row);
            let got = real.evaluate(&tup, &all).map_err(|e| e.to_string());
            ctx.eval(3);
            let ctx_txt = || format!("{real} over {:?} [{ex:?}]", row.iter().map(|v| v.get_val().clone()).collect::<Vec<_>>());
            if ambiguous(&ex, &row) {
                ctx.count("not_judged_by_reference", 1);
            } else {
                let outcome = match (&got, &want.r) {
                    (Err(_), Err(())) => "required error",
                    (Err(_), _) => "permitted error",
                    (Ok(v), _) if v.is_null() => "null",
                    (Ok(v), _) if *v.get_val() == Val::Boolean(true) => "true",
                    (Ok(v), _) if *v.get_val() == Val::Boolean(false) => "false",
                    _ => "value",
                };
                ctx.seen(&(name(&ex), outcome));
                ctx.count(outcome, 1);
                if got.is_err() && want.r.is_ok() {
                    ctx.count("permitted_errors", 1);
                }
                check!(
                    agrees(&want, &got),
                        "{} gives {} but should be {:?}; error: {:?}",
                    ctx_txt(),
                    show(&got),
                    want,
                    got.as_ref().err()
                );
            }
            let joined = real.evaluate_join(&l, &left, &r, &right).map_err(|e| e.to_string());
            check!(
                show(&joined) == show(&got),
                "in a join of {cut}+{} columns {} gives {} instead of {} ({:?})",
                n - cut,
                ctx_txt(),
                show(&joined),
                show(&got),
                joined.as_ref().err()
            );
            let cloned = again.evaluate(&tup, &all).map_err(|e| e.to_string());
            check!(show(&cloned) == show(&got), "clone_with_children of {} gives {} instead of {}", ctx_txt(), show(&cloned), show(&got));
        }
    }
    Ok(())
}

/// Every pair of number types, operator by operator.
fn pairs(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    const NUMS: [Ty; 6] = [Ty::TinyInt, Ty::SmallInt, Ty::Integer, Ty::BigInt, Ty::Float, Ty::Decimal];
    for ta in NUMS {
        for tb in NUMS {
            let (mut a, mut b) = (small(rng, ta), small(rng, tb));
            // divisors that are zero, equal operands
            if rng.chance(1, 6) {
                b = mk_int(tb, 0).unwrap_or_else(|| if tb == Ty::Float { Value::new_with_type(Val::Float(0.0), tb) } else { Value::new(0.0f64) });
            }
            if ta == tb && rng.chance(1, 6) {
                a = b.clone();
            }
            let row = [a.clone(), b.clone()];
            let schema = Schema::new(vec![Column::new("a", ta), Column::new("b", tb)]);
            let tup = Tuple::new(&row, &schema, RID::new(0, 0));
            let (ls, rs) = (Schema::new(vec![Column::new("a", ta)]), Schema::new(vec![Column::new("b", tb)]));
            let (l, r) = (Tuple::new(&row[..1], &ls, RID::new(0, 0)), Tuple::new(&row[1..], &rs, RID::new(0, 1)));
            let (cx, cy) = (Box::new(Col(0, ta)), Box::new(Col(1, tb)));
            let null = a.is_null() || b.is_null();
            for op in ['+', '-', '*', '/', '%'] {
                for bin in [false, true] {
                    if op == '%' && !bin {
                        continue;
                    }
                    let real = build(&Arith(op, cx.clone(), cy.clone(), bin), 1);
                    if op == '%' && !matches!(real.as_ref(), Expression::BinaryOp(_)) {
                        continue; // % of these types is not supported
                    }
                    let got = real.evaluate(&tup, &schema).map_err(|e| e.to_string());
                    let joined = real.evaluate_join(&l, &ls, &r, &rs).map_err(|e| e.to_string());
                    ctx.eval(2);
                    let what = || format!("{real} with {:?} {:?} and {:?} {:?}", ta, a.get_val(), tb, b.get_val());
                    check!(show(&got) == show(&joined), "{} gives {} and in a join {}", what(), show(&got), show(&joined));
                    if ta == Ty::Float || tb == Ty::Float {
                        // single precision: judged up to its rounding
                        let Ok(v) = &got else {
                            let (x, y) = if null { (0.0, 0.0) } else { (f64_of(&a), f64_of(&b)) };
                            let may = matches!(real.as_ref(), Expression::BinaryOp(_)) || op == '%' || (op == '/' && y == 0.0 && !null);
                            check!(may, "{} is refused ({:?}), x = {x}", what(), got);
                            ctx.count("single_precision_refused", 1);
                            continue;
                        };
                        if null {
                            check!(v.is_null(), "{} gives {}", what(), show(&got));
                            continue;
                        }
                        let (x, y) = (f64_of(&a), f64_of(&b));
                        if y == 0.0 && (op == '/' || op == '%') {
                            check!(op == '%' && v.is_null(), "{} gives {}", what(), show(&got));
                            continue;
                        }
                        let want = match op {
                            '+' => x + y,
                            '-' => x - y,
                            '*' => x * y,
                            '/' => x / y,
                            _ => x % y,
                        };
                        if op == '%' && (x.abs() > 1e6 || y.abs() > 1e6) {
                            continue;
                        }
                        let got_f = f64_of(v);
                        let slack = 1e-6 * x.abs().max(y.abs()).max(want.abs());
                        check!((got_f - want).abs() <= slack, "{} gives {} but should be {want}", what(), show(&got));
                        check!(matches!(v.get_val(), Val::Float(_) | Val::Decimal(_)), "{} gives {}", what(), show(&got));
                        ctx.seen(&("single precision", ta, tb, op));
                        continue;
                    }
                    let want = eval(&Arith(op, cx.clone(), cy.clone(), bin), &row);
                    let mut want = want;
                    if op != '%' && want.r.is_ok() && matches!(real.as_ref(), Expression::Arithmetic(_)) {
                        want.err_ok = false;
                    }
                    check!(agrees(&want, &got), "{} gives {} but should be {want:?} ({:?})", what(), show(&got), got.as_ref().err());
                    ctx.seen(&("pair", ta, tb, op, got.is_ok()));
                }
            }
            for op in OPS {
                for bin in [false, true] {
                    let ex = Cmp(op, cx.clone(), cy.clone(), bin);
                    let real = build(&ex, 1);
                    let got = real.evaluate(&tup, &schema).map_err(|e| e.to_string());
                    let joined = real.evaluate_join(&l, &ls, &r, &rs).map_err(|e| e.to_string());
                    ctx.eval(2);
                    let want = eval(&ex, &row);
                    let what = || format!("{real} with {:?} {:?} and {:?} {:?}", ta, a.get_val(), tb, b.get_val());
                    check!(agrees(&want, &got), "{} gives {} but should be {want:?} ({:?})", what(), show(&got), got.as_ref().err());
                    check!(show(&got) == show(&joined), "{} gives {} and in a join {}", what(), show(&got), show(&joined));
                }
            }
            // membership and quantifiers over a list of the other type
            let mut vals: Vec<Value> = list(rng, tb);
            vals.push(small(rng, tb));
            for ex in [
                In(cx.clone(), vals.clone(), false),
                In(cx.clone(), vals.clone(), true),
                Quant(true, *rng.pick(&OPS), cx.clone(), vals.clone()),
                Quant(false, *rng.pick(&OPS), cx.clone(), vals),
                Distinct(cx.clone(), cy.clone(), rng.chance(1, 2)),
                Between(cx.clone(), cy.clone(), Box::new(Const(small(rng, tb))), rng.chance(1, 2)),
            ] {
                let real = build(&ex, 1);
                let got = real.evaluate(&tup, &schema).map_err(|e| e.to_string());
                ctx.eval(1);
                let mut want = eval(&ex, &row);
                // lists of another type may not be supported
                want.err_ok |= ta != tb;
                check!(agrees(&want, &got), "{real} with {:?} {:?} and {:?} {:?} [{ex:?}] gives {} but should be {want:?} ({:?})", ta, a.get_val(), tb, b.get_val(), show(&got), got.as_ref().err());
                ctx.seen(&("pair", name(&ex), ta, tb, show(&got).len()));
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct (operator at the root, type of outcome: true, false, null, value, required or permitted error)");
    ctx.assume("operands are well typed: numbers with numbers, texts with texts, booleans with booleans");
    ctx.assume("where two numeric types meet in +,-,*,/ and for % and NULL operands of Arithmetic, an error (not supported) is accepted, a wrong value is not");
    ctx.assume("an operand whose value cannot change the result may or may not be evaluated, so an error in it may or may not surface (except in CASE and COALESCE, which promise not to evaluate it)");
    ctx.explore("exprs", 8, 6.0, 300, 10_000_000, case);
    ctx.explore("pairs", 8, 3.0, 100, 10_000_000, pairs);
    ctx.sample("trees", || {
        let mut rng = Rng::new(ctx.seed);
        let cols = [Ty::Boolean, Ty::Integer, Ty::Decimal, Ty::VarChar];
        json!((0..4).map(|_| build(&tree(&mut rng, Ty::Boolean, 3, &cols), 2).to_string()).collect::<Vec<_>>())
    });
}

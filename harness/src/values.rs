//! P18: values. Comparison, order, hashing, arithmetic, casts and encodings against exact
//! reference semantics.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::{CmpBool, Type};
use ferrite::types_db::value::{Val, Value};
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::gens;
use crate::rng::Rng;

pub const NUMS: [TypeId; 6] = [TypeId::TinyInt, TypeId::SmallInt, TypeId::Integer, TypeId::BigInt, TypeId::Decimal, TypeId::Float];

pub fn int_of(v: &Value) -> Option<i128> {
    Some(match &v.value_ {
        Val::TinyInt(i) => *i as i128,
        Val::SmallInt(i) => *i as i128,
        Val::Integer(i) => *i as i128,
        Val::BigInt(i) => *i as i128,
        _ => return None,
    })
}
pub fn mk_int(t: TypeId, i: i128) -> Option<Value> {
    let v = match t {
        TypeId::TinyInt => Val::TinyInt(i8::try_from(i).ok()?),
        TypeId::SmallInt => Val::SmallInt(i16::try_from(i).ok()?),
        TypeId::Integer => Val::Integer(i32::try_from(i).ok()?),
        TypeId::BigInt => Val::BigInt(i64::try_from(i).ok()?),
        _ => return None,
    };
    Some(Value::new_with_type(v, t))
}

/// Reference order: Some(Some(o)) ordered, Some(None) unordered (NaN), None not comparable.
pub fn reference(a: &Value, b: &Value) -> Option<Option<Ordering>> {
    use Val::*;
    if let (Some(x), Some(y)) = (int_of(a), int_of(b)) {
        return Some(Some(x.cmp(&y)));
    }
    let f32ish = |v: &Value| match &v.value_ {
        Float(f) => Some(*f),
        TinyInt(i) => Some(*i as f32),
        SmallInt(i) => Some(*i as f32),
        Integer(i) => Some(*i as f32),
        BigInt(i) => Some(*i as f32),
        _ => None,
    };
    let f64ish = |v: &Value| match &v.value_ {
        Float(f) => Some(*f as f64),
        Decimal(f) => Some(*f),
        _ => int_of(v).map(|i| i as f64),
    };
    if let (Some(x), Some(y)) = (f32ish(a), f32ish(b)) {
        return Some(x.partial_cmp(&y));
    }
    if let (Some(x), Some(y)) = (f64ish(a), f64ish(b)) {
        return Some(x.partial_cmp(&y));
    }
    Some(Some(match (&a.value_, &b.value_) {
        (Boolean(x), Boolean(y)) => x.cmp(y),
        (Timestamp(x), Timestamp(y)) => x.cmp(y),
        (Date(x), Date(y)) => x.cmp(y),
        (Time(x), Time(y)) => x.cmp(y),
        (Interval(x), Interval(y)) => x.cmp(y),
        (VarLen(x) | ConstLen(x), VarLen(y) | ConstLen(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Binary(x), Binary(y)) => x.cmp(y),
        (JSON(x), JSON(y)) | (UUID(x), UUID(y)) => x.as_bytes().cmp(y.as_bytes()),
        _ => return None,
    }))
}

/// Values that often are close to one another.
fn pair(rng: &mut Rng) -> (Value, Value) {
    let t = *rng.pick(&gens::SCALARS);
    let a = gens::value(rng, t, 12);
    let k = rng.below(10);
    let b = match k {
        0..=3 if NUMS.contains(&t) => {
            // A neighbour in another numeric type.
            let u = *rng.pick(&NUMS);
            let near = |i: i128, rng: &mut Rng| i.saturating_add(rng.range(-1, 1) as i128);
            match &a.value_ {
                Val::Decimal(f) if u == TypeId::Float => Value::new_with_type(Val::Float(*f as f32), u),
                Val::Float(f) if u == TypeId::Decimal => {
                    let d = *f as f64;
                    Value::new_with_type(Val::Decimal(if rng.chance(1, 2) { d } else { d * (1.0 + 1e-9) }), u)
                },
                Val::Decimal(f) => mk_int(u, near(*f as i128, rng)).unwrap_or_else(|| gens::value(rng, u, 12)),
                Val::Float(f) => mk_int(u, near(*f as i128, rng)).unwrap_or_else(|| gens::value(rng, u, 12)),
                _ => match int_of(&a) {
                    Some(i) if u == TypeId::Decimal => Value::new_with_type(Val::Decimal(near(i, rng) as f64), u),
                    Some(i) if u == TypeId::Float => Value::new_with_type(Val::Float(near(i, rng) as f32), u),
                    Some(i) => mk_int(u, near(i, rng)).unwrap_or_else(|| gens::value(rng, u, 12)),
                    None => gens::value(rng, u, 12),
                },
            }
        },
        4 => a.clone(),
        5..=7 => gens::value(rng, t, 12),
        _ => {
            let t = *rng.pick(&gens::SCALARS);
            gens::value(rng, t, 12)
        },
    };
    (a, b)
}

fn compare(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    for _ in 0..400 {
        let (a, b) = pair(rng);
        let six = |a: &Value, b: &Value| {
            [
                a.compare_equals(b),
                a.compare_not_equals(b),
                a.compare_less_than(b),
                a.compare_less_than_equals(b),
                a.compare_greater_than(b),
                a.compare_greater_than_equals(b),
            ]
        };
        let got = six(&a, &b);
        let name = ["=", "<>", "<", "<=", ">", ">="];
        let (ka, kb) = (gens::key(&a), gens::key(&b));
        ctx.eval(1);
        if a.is_null() || b.is_null() {
            check!(got.iter().all(|c| *c == CmpBool::CmpNull), "comparing {ka} with {kb} gives {got:?}, expected NULL");
            continue;
        }
        match reference(&a, &b) {
            Some(o) => {
                let want = [
                    o == Some(Ordering::Equal),
                    o != Some(Ordering::Equal),
                    o == Some(Ordering::Less),
                    matches!(o, Some(Ordering::Less | Ordering::Equal)),
                    o == Some(Ordering::Greater),
                    matches!(o, Some(Ordering::Greater | Ordering::Equal)),
                ];
                for i in 0..6 {
                    check!(got[i] == CmpBool::from(want[i]), "{ka} {} {kb} is {:?}, expected {}", name[i], got[i], want[i]);
                }
                ctx.seen(&("cmp", a.get_type_id() as u8, b.get_type_id() as u8, o.map(|o| o as i8), (ka.len() + kb.len()) % 16));
            },
            None => {
                let rev = six(&b, &a);
                check!(got[0] == CmpBool::CmpFalse && got[1] == CmpBool::CmpTrue, "{ka} and {kb} are of different kinds, but = is {:?} and <> {:?}", got[0], got[1]);
                check!(got[2] == rev[4] && got[3] == rev[5], "{ka} < {kb} is {:?}, but reversed {:?}", got[2], rev[4]);
            },
        }
        if a.get_type_id() == b.get_type_id() && reference(&a, &b).is_some_and(|o| o.is_some()) {
            let o = reference(&a, &b).unwrap().unwrap();
            let (mn, mx) = (a.min(&b), a.max(&b));
            let (wn, wx) = if o == Ordering::Greater { (&b, &a) } else { (&a, &b) };
            check!(mn == *wn && mx == *wx, "min and max of {ka} and {kb} are {} and {}", gens::key(&mn), gens::key(&mx));
        }
    }
    Ok(())
}

fn hash(v: &Value) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Equality, order and hash as collections use them.
fn order(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    let nest = |rng: &mut Rng| {
        let t = *rng.pick(&gens::SCALARS);
        let n = rng.below(3);
        let v: Vec<Value> = (0..n).map(|_| gens::value(rng, t, 3)).collect();
        match rng.below(3) {
            0 => Value::new_with_type(Val::Vector(v), TypeId::Vector),
            1 => Value::new_with_type(Val::Array(v), TypeId::Array),
            _ => Value::new_with_type(Val::Point(gens::float(rng), gens::float(rng)), TypeId::Point),
        }
    };
    let mut pool: Vec<Value> = Vec::new();
    let types: Vec<TypeId> = (0..1 + rng.below(3)).map(|_| *rng.pick(&gens::SCALARS)).collect();
    for _ in 0..14 {
        let v = match rng.below(8) {
            0 => nest(rng),
            1 if !pool.is_empty() => rng.pick(&pool).clone(),
            _ => {
                let t = *rng.pick(&types);
                gens::value(rng, t, 3)
            },
        };
        pool.push(v);
    }
    for a in &pool {
        check!(a == a, "{} is not equal to itself", gens::key(a));
        check!(a.clone() == *a && a.clone_optimized() == *a && gens::key(&a.clone()) == gens::key(a), "a copy of {} differs", gens::key(a));
        for b in &pool {
            let (ka, kb) = (gens::key(a), gens::key(b));
            check!((a == b) == (b == a), "{ka} == {kb} is not symmetric");
            check!(a != b || hash(a) == hash(b), "{ka} equals {kb}, but they hash differently");
            let (x, y) = (a.partial_cmp(b), b.partial_cmp(a));
            check!(x == y.map(Ordering::reverse), "the order of {ka} and {kb} is {x:?} one way and {y:?} the other");
            check!((x == Some(Ordering::Equal)) == (a == b), "{ka} and {kb} are ordered {x:?}, but equality is {}", a == b);
            if let Some(Some(o)) = (a.get_type_id() == b.get_type_id()).then(|| reference(a, b)).flatten() {
                check!(x == Some(o), "{ka} and {kb} are ordered {x:?}, expected {o:?}");
            }
            for c in &pool {
                check!(!(a == b && b == c) || a == c, "equality is not transitive over {ka}, {kb}, {}", gens::key(c));
                if x == Some(Ordering::Less) && b.partial_cmp(c) == Some(Ordering::Less) {
                    check!(a.partial_cmp(c) == Some(Ordering::Less), "{ka} < {kb} < {}, but not the first before the last", gens::key(c));
                }
            }
            ctx.eval(1);
        }
    }
    ctx.seen(&("order", gens::keys(&pool)));
    Ok(())
}

/// The type an arithmetic result must have, for the pairs every operation supports.
fn arithmetic(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    for _ in 0..400 {
        let t = *rng.pick(&NUMS);
        let (a, b) = if rng.chance(2, 3) {
            (gens::value(rng, t, 8), gens::value(rng, t, 8))
        } else {
            pair(rng)
        };
        let (ka, kb) = (gens::key(&a), gens::key(&b));
        let ops: [(&str, Result<Value, String>); 4] =
            [("+", a.add(&b)), ("-", a.subtract(&b)), ("*", a.multiply(&b)), ("/", a.divide(&b))];
        let same = a.get_type_id() == b.get_type_id();
        for (op, got) in ops {
            ctx.eval(1);
            if a.is_null() || b.is_null() {
                check!(got.as_ref().is_ok_and(|v| v.is_null()), "{ka} {op} {kb} is {:?}, expected NULL", got.map(|v| gens::key(&v)));
                continue;
            }
            match (int_of(&a), int_of(&b)) {
                (Some(x), Some(y)) => {
                    let exact = match op {
                        "+" => Some(x + y),
                        "-" => Some(x - y),
                        "*" => Some(x * y),
                        _ => (y != 0).then(|| x / y),
                    };
                    match got {
                        Ok(v) => {
                            check!(int_of(&v).is_some() && int_of(&v) == exact, "{ka} {op} {kb} is {}, exactly {exact:?}", gens::key(&v));
                            let wide = v.get_type_id();
                            check!(wide as u8 >= a.get_type_id() as u8 || !same, "{ka} {op} {kb} has type {wide:?}");
                        },
                        // Supported, in range: must be computed.
                        Err(e) => check!(
                            !same || exact.and_then(|e| mk_int(a.get_type_id(), e)).is_none(),
                            "{ka} {op} {kb} fails: {e}"
                        ),
                    }
                },
                _ if same && matches!(a.get_type_id(), TypeId::Decimal | TypeId::Float) => {
                    let f = |x: f64, y: f64| match op {
                        "+" => x + y,
                        "-" => x - y,
                        "*" => x * y,
                        _ => x / y,
                    };
                    let (want, zero) = match (&a.value_, &b.value_) {
                        (Val::Decimal(x), Val::Decimal(y)) => (Value::new_with_type(Val::Decimal(f(*x, *y)), TypeId::Decimal), *y == 0.0),
                        (Val::Float(x), Val::Float(y)) => {
                            let g = match op {
                                "+" => x + y,
                                "-" => x - y,
                                "*" => x * y,
                                _ => x / y,
                            };
                            (Value::new_with_type(Val::Float(g), TypeId::Float), *y == 0.0)
                        },
                        _ => continue,
                    };
                    if op == "/" && zero {
                        check!(got.is_err(), "{ka} / {kb} is {:?}", got.map(|v| gens::key(&v)));
                    } else {
                        match got {
                            Ok(v) => check!(v == want, "{ka} {op} {kb} is {}, expected {}", gens::key(&v), gens::key(&want)),
                            Err(e) => return Err(format!("{ka} {op} {kb} fails: {e}")),
                        }
                    }
                },
                _ => {},
            }
        }
        let m = a.modulo(&b);
        if let (Some(x), Some(y)) = (int_of(&a), int_of(&b)) {
            if !m.is_null() {
                check!(y != 0 && int_of(&m) == Some(x % y), "{ka} % {kb} is {}", gens::key(&m));
            } else {
                check!(y == 0 || !same, "{ka} % {kb} is NULL");
            }
        }
        ctx.seen(&("arith", a.get_type_id() as u8, b.get_type_id() as u8, &ka, &kb));
    }
    Ok(())
}

fn days(y: i64, m: i64, d: i64) -> i64 {
    // Days since 1970-01-01 in the proleptic Gregorian calendar.
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

fn casts(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    for _ in 0..300 {
        let from = *rng.pick(&gens::SCALARS);
        let to = *rng.pick(&gens::SCALARS);
        let a = gens::value(rng, from, 10);
        let ka = gens::key(&a);
        let got = a.cast_to(to);
        ctx.eval(1);
        ctx.seen(&("cast", from as u8, to as u8, got.is_ok(), ka.len() % 8));
        if from == to {
            check!(got.as_ref().is_ok_and(|v| gens::key(v) == ka), "{ka} cast to its own type is {:?}", got.map(|v| gens::key(&v)));
            continue;
        }
        if a.is_null() {
            check!(got.as_ref().is_ok_and(|v| v.is_null() && v.get_type_id() == to), "NULL cast to {to:?} is {:?}", got.map(|v| gens::key(&v)));
            continue;
        }
        if let Ok(v) = &got {
            check!(v.get_type_id() == to && !v.is_null(), "{ka} cast to {to:?} is {}", gens::key(v));
        }
        let show = got.as_ref().map(gens::key);
        let is_int = |t: TypeId| matches!(t, TypeId::TinyInt | TypeId::SmallInt | TypeId::Integer | TypeId::BigInt);
        if is_int(to) {
            // The whole part, or an error if it does not fit.
            let src: Option<Option<i128>> = match &a.value_ {
                Val::Boolean(b) => Some(Some(*b as i128)),
                Val::Decimal(f) => Some(f.is_finite().then(|| if f.abs() < 1e30 { f.trunc() as i128 } else { i128::MAX })),
                Val::Float(f) => Some(f.is_finite().then(|| if f.abs() < 1e30 { f.trunc() as i128 } else { i128::MAX })),
                Val::VarLen(s) | Val::ConstLen(s) => Some(s.parse::<i128>().ok()),
                Val::Timestamp(t) if got.is_ok() => Some(Some(*t as i128)),
                Val::Date(d) if got.is_ok() => Some(Some(*d as i128)),
                Val::Time(d) if got.is_ok() => Some(Some(*d as i128)),
                Val::Interval(d) if got.is_ok() => Some(Some(*d as i128)),
                _ => int_of(&a).map(Some),
            };
            if let Some(src) = src {
                let want = src.and_then(|i| mk_int(to, i));
                check!(got.as_ref().ok().map(gens::key) == want.as_ref().map(gens::key), "{ka} cast to {to:?} is {show:?}, expected {:?}", want.map(|w| gens::key(&w)));
            }
        }
        if let (Some(i), TypeId::Decimal) = (int_of(&a), to) {
            check!(show.as_ref().ok() == Some(&gens::key(&Value::new_with_type(Val::Decimal(i as f64), to))), "{ka} cast to {to:?} is {show:?}");
        }
        if let (Some(i), TypeId::Boolean) = (int_of(&a), to) {
            check!(show.as_ref().ok() == Some(&gens::key(&Value::new_with_type(Val::Boolean(i != 0), to))), "{ka} cast to {to:?} is {show:?}");
        }
        if let (Val::Float(f), TypeId::Decimal) = (&a.value_, to) {
            check!(show.as_ref().ok() == Some(&gens::key(&Value::new_with_type(Val::Decimal(*f as f64), to))), "{ka} cast to {to:?} is {show:?}");
        }
        // Text and back.
        if matches!(to, TypeId::VarChar | TypeId::Char) && !matches!(a.value_, Val::Binary(_)) {
            let Ok(s) = &got else { return Err(format!("{ka} cannot be cast to text: {show:?}")) };
            let nan = matches!(&a.value_, Val::Decimal(f) if f.is_nan()) || matches!(&a.value_, Val::Float(f) if f.is_nan());
            match s.cast_to(from) {
                Ok(b) => check!(gens::key(&b) == ka || nan, "{ka} cast to text and back is {}", gens::key(&b)),
                Err(e) => return Err(format!("{ka} cast to text is {}, which cannot be cast back: {e}", gens::key(s))),
            }
        }
    }
    // Dates and times.
    for _ in 0..40 {
        let (y, m, d) = (rng.range(1600, 2400), rng.range(1, 12), rng.range(1, 31));
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let len = match m {
            2 => 28 + leap as i64,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        let (h, mi, s) = (rng.range(0, 23), rng.range(0, 59), rng.range(0, 59));
        let text = |s: String, rng: &mut Rng| {
            if rng.chance(1, 2) { Value::new_with_type(Val::VarLen(s), TypeId::VarChar) } else { Value::new_with_type(Val::ConstLen(s), TypeId::Char) }
        };
        let valid = d <= len;
        let dn = days(y, m, d);
        let got = text(format!("{y:04}-{m:02}-{d:02}"), rng).cast_to(TypeId::Date).ok().map(|v| gens::key(&v));
        let want = valid.then(|| gens::key(&Value::new_with_type(Val::Date(dn as i32), TypeId::Date)));
        check!(got == want, "date {y:04}-{m:02}-{d:02} is {got:?}, expected {want:?}");
        let got = text(format!("{h:02}:{mi:02}:{s:02}"), rng).cast_to(TypeId::Time).ok().map(|v| gens::key(&v));
        let want = Some(gens::key(&Value::new_with_type(Val::Time((h * 3600 + mi * 60 + s) as i32), TypeId::Time)));
        check!(got == want, "time {h:02}:{mi:02}:{s:02} is {got:?}, expected {want:?}");
        let secs = dn * 86400 + h * 3600 + mi * 60 + s;
        let sep = *rng.pick(&[' ', 'T']);
        let z = if sep == 'T' { "Z" } else { "" };
        let txt = format!("{y:04}-{m:02}-{d:02}{sep}{h:02}:{mi:02}:{s:02}{z}");
        let got = text(txt.clone(), rng).cast_to(TypeId::Timestamp).ok().map(|v| gens::key(&v));
        // Times before 1970 have no representation.
        let want = (valid && secs >= 0).then(|| gens::key(&Value::new_with_type(Val::Timestamp(secs as u64), TypeId::Timestamp)));
        check!(got == want, "timestamp {txt} is {got:?}, expected {want:?}");
        ctx.eval(3);
    }
    Ok(())
}

/// Encodings give back what went in.
fn encodings(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    for _ in 0..60 {
        let t = *rng.pick(&gens::SCALARS);
        let a = gens::value(rng, t, 20);
        if !a.is_null() {
            let b = Value::deserialize_from(&a.as_bytes(), t);
            check!(gens::key(&a) == gens::key(&b), "{} is read back as {}", gens::key(&a), gens::key(&b));
        }
        let (schema, types) = gens::schema(rng, 6);
        let vals = gens::values(rng, &types, 40);
        let tup = Tuple::try_new(&vals, &schema, RID::new(rng.next(), rng.next() as u32)).map_err(|e| format!("{e:?}"))?;
        let n = tup.get_length().map_err(|e| format!("{e:?}"))?;
        let mut buf = vec![0xAAu8; n + rng.below(20)];
        let used = tup.serialize_to(&mut buf).map_err(|e| format!("{e:?}"))?;
        check!(used == n, "a tuple of length {n} took {used} bytes");
        check!(buf[n..].iter().all(|b| *b == 0xAA), "writing a tuple touched bytes behind it");
        let back = Tuple::deserialize_from(&buf).map_err(|e| format!("{e:?}"))?;
        check!(gens::keys(&back.get_values()) == gens::keys(&vals), "tuple {:?} is read back as {:?}", gens::keys(&vals), gens::keys(&back.get_values()));
        let short = rng.below(n);
        let mut small = vec![0u8; short];
        check!(tup.serialize_to(&mut small).is_err(), "a tuple of {n} bytes fits into {short}");
        check!(Tuple::deserialize_from(&buf[..short]).is_err(), "the first {short} of {n} bytes are taken for a tuple");
        let ks: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(types.len() + 1)).collect();
        let keys = tup.keys_from_tuple_checked(&ks);
        let inside = ks.iter().all(|k| *k < types.len());
        check!(keys.is_ok() == inside, "key columns {ks:?} of {} give {}", types.len(), keys.is_ok());
        if let Ok(keys) = keys {
            check!(gens::keys(&keys) == ks.iter().map(|k| gens::key(&vals[*k])).collect::<Vec<_>>(), "key columns {ks:?} are {:?}", gens::keys(&keys));
        }
        let other = gens::values(rng, &types, 10);
        let o = Tuple::new(&other, &schema, RID::new(0, 0));
        let c = tup.combine(&o);
        check!(
            gens::keys(&c.get_values()) == [gens::keys(&vals), gens::keys(&other)].concat(),
            "joining two tuples gives {:?}",
            gens::keys(&c.get_values())
        );
        check!(Tuple::try_new(&vals[1..], &schema, RID::new(0, 0)).is_err(), "a tuple with a missing value is accepted");
        ctx.eval(4);
        ctx.seen(&("enc", gens::keys(&vals)));
    }
    let _ = Schema::new(vec![Column::new("x", TypeId::Integer)]);
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a state is a distinct operand pair class and outcome (comparison, cast), a distinct operand pair (arithmetic), or a distinct pool or tuple");
    ctx.assume("mixed numeric comparisons promote integers and single floats to single, everything to double with a decimal; casts from fractions keep the whole part");
    ctx.explore("compare", 8, 2.0, 40, 100_000, compare);
    ctx.explore("order", 8, 2.0, 40, 100_000, order);
    ctx.explore("arithmetic", 8, 2.0, 40, 100_000, arithmetic);
    ctx.explore("casts", 8, 2.0, 40, 100_000, casts);
    ctx.explore("encodings", 8, 2.0, 40, 100_000, encodings);
    ctx.sample("pairs", || {
        let mut rng = Rng::new(ctx.seed);
        json!({"pairs compared": (0..6).map(|_| { let (a, b) = pair(&mut rng); format!("{} with {}: {:?}", gens::key(&a), gens::key(&b), reference(&a, &b)) }).collect::<Vec<_>>()})
    });
}

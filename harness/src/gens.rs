//! Random values, schemas and tuples, and an exact (bit-level) rendering to compare them by.
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};

use crate::rng::Rng;

pub const SCALARS: [TypeId; 16] = [
    TypeId::Boolean,
    TypeId::TinyInt,
    TypeId::SmallInt,
    TypeId::Integer,
    TypeId::BigInt,
    TypeId::Decimal,
    TypeId::Float,
    TypeId::Timestamp,
    TypeId::Date,
    TypeId::Time,
    TypeId::Interval,
    TypeId::VarChar,
    TypeId::Char,
    TypeId::Binary,
    TypeId::JSON,
    TypeId::UUID,
];

fn int(rng: &mut Rng, bits: u32) -> i64 {
    let lim = if bits == 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 };
    match rng.below(6) {
        0 => 0,
        1 => *rng.pick(&[1, -1, lim, -lim - 1, lim - 1, -lim]),
        2 | 3 => rng.range(-20, 20),
        _ => {
            let sh = rng.below(bits as usize) as u32;
            ((rng.next() as i64) >> (64 - bits)) >> sh
        },
    }
}
pub fn text(rng: &mut Rng, max: usize) -> String {
    let n = match rng.below(8) {
        0 => 0,
        1 => max,
        _ => rng.below(max.min(24) + 1),
    };
    (0..n)
        .map(|_| match rng.below(14) {
            0 => 'é',
            1 => '\u{1F980}',
            2 => '\0',
            3 => '\'',
            4 => '%',
            _ => (b'a' + rng.below(26) as u8) as char,
        })
        .collect()
}
pub fn float(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => *rng.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        3 => rng.range(-1000, 1000) as f64,
        4 => rng.range(-1000, 1000) as f64 / 8.0,
        _ => {
            let f = f64::from_bits(rng.next());
            if f.is_finite() { f } else { 1.5 }
        },
    }
}
pub fn value(rng: &mut Rng, t: TypeId, max: usize) -> Value {
    if rng.chance(1, 10) {
        return Value::new_with_type(Val::Null, t);
    }
    let v = match t {
        TypeId::Boolean => Val::Boolean(rng.chance(1, 2)),
        TypeId::TinyInt => Val::TinyInt(int(rng, 8) as i8),
        TypeId::SmallInt => Val::SmallInt(int(rng, 16) as i16),
        TypeId::Integer => Val::Integer(int(rng, 32) as i32),
        TypeId::BigInt => Val::BigInt(int(rng, 64)),
        TypeId::Decimal => Val::Decimal(float(rng)),
        TypeId::Float => Val::Float(float(rng) as f32),
        TypeId::Timestamp => Val::Timestamp(rng.next() >> rng.below(64)),
        TypeId::Date => Val::Date(int(rng, 32) as i32),
        TypeId::Time => Val::Time(int(rng, 32) as i32),
        TypeId::Interval => Val::Interval(int(rng, 64)),
        TypeId::VarChar => Val::VarLen(text(rng, max)),
        TypeId::Char => Val::ConstLen(text(rng, max)),
        TypeId::Binary => {
            let n = rng.below(max + 1);
            Val::Binary(rng.bytes(n))
        },
        TypeId::JSON => Val::JSON(format!("{{\"a\":{}}}", rng.below(100))),
        TypeId::UUID => Val::UUID(format!("{:016x}", rng.next())),
        _ => Val::Null,
    };
    Value::new_with_type(v, t)
}
pub fn schema(rng: &mut Rng, max_cols: usize) -> (Schema, Vec<TypeId>) {
    let n = 1 + rng.below(max_cols);
    let types: Vec<TypeId> = (0..n).map(|_| *rng.pick(&SCALARS)).collect();
    let cols = types.iter().enumerate().map(|(i, t)| Column::new(&format!("c{i}"), *t)).collect();
    (Schema::new(cols), types)
}
pub fn values(rng: &mut Rng, types: &[TypeId], max: usize) -> Vec<Value> {
    types.iter().map(|t| value(rng, *t, max)).collect()
}
pub fn tuple(vals: &[Value], schema: &Schema, rid: RID) -> Tuple {
    Tuple::new(vals, schema, rid)
}
/// Bit-level identity of a value.
pub fn key(v: &Value) -> String {
    let b = match &v.value_ {
        Val::Decimal(f) => format!("D{:016x}", f.to_bits()),
        Val::Float(f) => format!("F{:08x}", f.to_bits()),
        x => format!("{x:?}"),
    };
    format!("{:?}:{b}:{:?}", v.type_id_, v.struct_data.as_ref().map(|d| d.iter().map(key).collect::<Vec<_>>()))
}
pub fn keys(vs: &[Value]) -> Vec<String> {
    vs.iter().map(key).collect()
}

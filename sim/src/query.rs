//! Query workloads and the plain reference answers to them.

use crate::core;
use crate::gen::{Dataset, Kind, SchemaMode};
use chrono::{DateTime, Utc};
use fcb_core::{FixedStringKey, KeyType, Operator, SpatialQuery};
use ordered_float::OrderedFloat;
use serde_json::{json, Value};
use std::cmp::Ordering;

// ---------------------------------------------------------------- spatial

fn coord(ds: &Dataset, axis: usize, boxes: &[[f64; 4]]) -> f64 {
    let scale = ds.cj["transform"]["scale"][axis].as_f64().unwrap();
    let b = &boxes[core::w(boxes.len())];
    let v = b[axis + 2 * core::w(2)];
    if ds.exact_coords() {
        v + scale * [0.0, 0.5, -0.5, 1.0, -1.0, 10.0, -10.0][core::w(7)]
    } else {
        // never so close to an edge that rounding decides
        v + scale * [0.5, -0.5, 1.5, -1.5, 10.5, -10.5][core::w(6)]
    }
}

/// A box or point query; never empty-sided or NaN.
pub fn spatial(ds: &Dataset, boxes: &[[f64; 4]]) -> SpatialQuery {
    match core::w(8) {
        7 => {
            core::probe("query-everything");
            let big = *core::wpick(&[1e9, 1e300, f64::MAX, f64::INFINITY]);
            SpatialQuery::BBox(-big, -big, big, big)
        }
        6 => {
            // far away from everything
            let o = *core::wpick(&[1e8, -1e8, 1e200]);
            SpatialQuery::BBox(o, o, o + 1.0, o + 1.0)
        }
        4 | 5 => SpatialQuery::PointIntersects(coord(ds, 0, boxes), coord(ds, 1, boxes)),
        _ => {
            let (a, b) = (coord(ds, 0, boxes), coord(ds, 0, boxes));
            let (c, d) = (coord(ds, 1, boxes), coord(ds, 1, boxes));
            SpatialQuery::BBox(a.min(b), c.min(d), a.max(b), c.max(d))
        }
    }
}

/// Which boxes a box or point query selects.
pub fn spatial_answer(q: &SpatialQuery, boxes: &[[f64; 4]]) -> Vec<bool> {
    boxes
        .iter()
        .map(|b| match q {
            SpatialQuery::BBox(x0, y0, x1, y1) => {
                !(b[2] < *x0 || b[0] > *x1 || b[3] < *y0 || b[1] > *y1)
            }
            SpatialQuery::PointIntersects(x, y) => {
                b[0] <= *x && *x <= b[2] && b[1] <= *y && *y <= b[3]
            }
            SpatialQuery::PointNearest(..) => unreachable!(),
        })
        .collect()
}

pub fn centre_distance(b: &[f64; 4], x: f64, y: f64) -> f64 {
    let cx = (b[0] + b[2]) / 2.0;
    let cy = (b[1] + b[3]) / 2.0;
    ((cx - x).powi(2) + (cy - y).powi(2)).sqrt()
}

pub fn nearest_point(ds: &Dataset, boxes: &[[f64; 4]]) -> (f64, f64) {
    match core::w(6) {
        0 => {
            // a centre, where distances tie or vanish
            let b = &boxes[core::w(boxes.len())];
            ((b[0] + b[2]) / 2.0, (b[1] + b[3]) / 2.0)
        }
        1 => {
            let o = *core::wpick(&[1e6, -1e6, 1e9]);
            (o, -o)
        }
        2 => {
            // between two centres
            let b = &boxes[core::w(boxes.len())];
            let c = &boxes[core::w(boxes.len())];
            (
                (b[0] + b[2] + c[0] + c[2]) / 4.0,
                (b[1] + b[3] + c[1] + c[3]) / 4.0,
            )
        }
        _ => (coord(ds, 0, boxes), coord(ds, 1, boxes)),
    }
}

// ---------------------------------------------------------------- attributes

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i128),
    F(OrderedFloat<f64>),
    S(Vec<u8>),
    B(bool),
    T(DateTime<Utc>),
}

impl Val {
    pub fn cmp(&self, o: &Val) -> Ordering {
        match (self, o) {
            (Val::I(a), Val::I(b)) => a.cmp(b),
            (Val::F(a), Val::F(b)) => a.cmp(b),
            (Val::S(a), Val::S(b)) => a.cmp(b),
            (Val::B(a), Val::B(b)) => a.cmp(b),
            (Val::T(a), Val::T(b)) => a.cmp(b),
            _ => panic!("harness: mixed comparison"),
        }
    }
}

/// The value an attribute stands for, or None if it has none of that type.
pub fn val(kind: Kind, v: &Value) -> Option<Val> {
    Some(match kind {
        Kind::Bool => Val::B(v.as_bool()?),
        Kind::ULong | Kind::UInt | Kind::UShort | Kind::UByte => Val::I(v.as_u64()? as i128),
        Kind::Long | Kind::Int | Kind::Short | Kind::Byte => Val::I(v.as_i64()? as i128),
        Kind::Double => Val::F(OrderedFloat(v.as_f64()?)),
        Kind::Float => Val::F(OrderedFloat(v.as_f64()? as f32 as f64)),
        Kind::Str => {
            // the index keeps the first 50 bytes
            let b = v.as_str()?.as_bytes();
            Val::S(b[..b.len().min(50)].to_vec())
        }
        Kind::Date => Val::T(
            DateTime::parse_from_rfc3339(v.as_str()?)
                .ok()?
                .with_timezone(&Utc),
        ),
        Kind::Json | Kind::Binary => return None,
    })
}

pub fn key(kind: Kind, v: &Value) -> KeyType {
    match kind {
        Kind::Bool => KeyType::Bool(v.as_bool().unwrap()),
        Kind::ULong => KeyType::UInt64(v.as_u64().unwrap()),
        Kind::UInt => KeyType::UInt32(v.as_u64().unwrap() as u32),
        Kind::UShort => KeyType::UInt16(v.as_u64().unwrap() as u16),
        Kind::UByte => KeyType::UInt8(v.as_u64().unwrap() as u8),
        Kind::Long => KeyType::Int64(v.as_i64().unwrap()),
        Kind::Int => KeyType::Int32(v.as_i64().unwrap() as i32),
        Kind::Short => KeyType::Int16(v.as_i64().unwrap() as i16),
        Kind::Byte => KeyType::Int8(v.as_i64().unwrap() as i8),
        Kind::Double => KeyType::Float64(OrderedFloat(v.as_f64().unwrap())),
        Kind::Float => KeyType::Float32(OrderedFloat(v.as_f64().unwrap() as f32)),
        Kind::Str => KeyType::StringKey50(FixedStringKey::from_str(v.as_str().unwrap())),
        Kind::Date => KeyType::DateTime(
            DateTime::parse_from_rfc3339(v.as_str().unwrap())
                .unwrap()
                .with_timezone(&Utc),
        ),
        // (no oracle: only compared between readers)
        Kind::Json | Kind::Binary => KeyType::StringKey100(FixedStringKey::from_str(&v.to_string())),
    }
}

pub const OPS: [Operator; 6] = [
    Operator::Eq,
    Operator::Ge,
    Operator::Lt,
    Operator::Gt,
    Operator::Le,
    Operator::Ne,
];

#[derive(Clone, Debug)]
pub struct Cond {
    pub name: String,
    pub kind: Kind,
    pub op: Operator,
    pub value: Value,
}

impl Cond {
    pub fn holds(&self, v: &Value) -> bool {
        let Some(a) = val(self.kind, v) else { return false };
        let b = val(self.kind, &self.value).expect("harness: query value");
        op_holds(self.op, a.cmp(&b))
    }
    pub fn ask(&self) -> (String, Operator, KeyType) {
        (self.name.clone(), self.op, key(self.kind, &self.value))
    }
}

pub fn op_holds(op: Operator, o: Ordering) -> bool {
    match op {
        Operator::Eq => o == Ordering::Equal,
        Operator::Ne => o != Ordering::Equal,
        Operator::Lt => o == Ordering::Less,
        Operator::Le => o != Ordering::Greater,
        Operator::Gt => o == Ordering::Greater,
        Operator::Ge => o != Ordering::Less,
    }
}

fn values<'a>(f: &'a Value, name: &'a str) -> impl Iterator<Item = &'a Value> + 'a {
    f["CityObjects"]
        .as_object()
        .unwrap()
        .values()
        .filter_map(move |o| o.get("attributes").and_then(|a| a.get(name)))
        .filter(|v| !v.is_null())
}

/// A feature matches when for each condition one of its objects satisfies it.
pub fn attr_answer(conds: &[Cond], ds: &Dataset) -> Vec<bool> {
    ds.feats
        .iter()
        .map(|f| conds.iter().all(|c| values(f, &c.name).any(|v| c.holds(v))))
        .collect()
}

pub fn has_values(ds: &Dataset, name: &str) -> bool {
    ds.feats.iter().any(|f| values(f, name).next().is_some())
}

/// The attributes that were asked to be indexed and are in the schema.
pub fn indexed_cols(ds: &Dataset) -> Vec<(String, Kind)> {
    ds.indexed
        .iter()
        .filter_map(|(n, _)| ds.cols.iter().find(|c| &c.name == n))
        .filter(|c| match ds.mode {
            SchemaMode::None => false,
            // (signed and unsigned values in one column: which type is guessed is not this check's business)
            SchemaMode::Guess => c.kind != Kind::Long || !ds.feats.iter().any(|f| values(f, &c.name).any(|v| v.is_u64())),
            _ => ds.explicit.iter().any(|e| e.0 == c.name),
        })
        .map(|c| (c.name.clone(), c.kind))
        .collect()
}

fn query_value(ds: &Dataset, name: &str, kind: Kind) -> Value {
    let col = ds.cols.iter().find(|c| c.name == name).unwrap();
    match core::w(4) {
        0 | 1 => core::wpick(&col.pool).clone(),
        2 => crate::gen::tape_value(kind),
        _ => {
            // the extremes of the type, and neighbours of values
            match kind {
                Kind::Bool => json!(core::wb(1, 2)),
                Kind::ULong => json!(*core::wpick(&[0u64, u64::MAX, 6, 1 << 63])),
                Kind::UInt => json!(*core::wpick(&[0u32, u32::MAX, 6, 1 << 31])),
                Kind::UShort => json!(*core::wpick(&[0u16, u16::MAX, 6])),
                Kind::UByte => json!(*core::wpick(&[0u8, u8::MAX, 6, 128])),
                Kind::Long => json!(*core::wpick(&[0i64, i64::MIN, i64::MAX, 7])),
                Kind::Int => json!(*core::wpick(&[0i32, i32::MIN, i32::MAX, 7])),
                Kind::Short => json!(*core::wpick(&[0i16, i16::MIN, i16::MAX, 7])),
                Kind::Byte => json!(*core::wpick(&[0i8, i8::MIN, i8::MAX, 7])),
                Kind::Double => json!(*core::wpick(&[0.0, -0.0, f64::MAX, f64::MIN, 2.5, 1e-320])),
                Kind::Float => json!(*core::wpick(&[0.0, -0.0, f32::MAX as f64, f32::MIN as f64, 2.5])),
                Kind::Str => json!(*core::wpick(&["", "zzzz", "a ", "A", "\u{10ffff}"])),
                Kind::Date => json!(*core::wpick(&[
                    "1970-01-01T00:00:00Z",
                    "9999-12-31T23:59:59Z",
                    "0001-01-01T00:00:00Z",
                    "2021-06-01T10:00:00.000000001Z",
                ])),
                Kind::Json | Kind::Binary => json!(null),
            }
        }
    }
}

/// Conditions over indexed attributes (there must be one).
pub fn conds(ds: &Dataset) -> Vec<Cond> {
    let cols = indexed_cols(ds);
    let n = 1 + [0, 0, 1, 2][core::w(4)];
    (0..n)
        .map(|_| {
            let (name, kind) = core::wpick(&cols).clone();
            let value = query_value(ds, &name, kind);
            Cond {
                name,
                kind,
                op: *core::wpick(&OPS),
                value,
            }
        })
        .collect()
}

//! Random data types, and values of them, that serialize and deserialize through
//! the same calls as types with derived implementations do.
use crate::{engine::Src, model::Val};
use serde::{
    de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{
        SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant,
    },
    Deserialize, Deserializer, Serialize, Serializer,
};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    /// Signed, and the width in bytes.
    Int(bool, u8),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Option(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Newtype(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(Fields),
    Enum(Vec<(&'static str, Variant)>),
    /// Whatever the data is.
    Any,
}

pub type Fields = Vec<(&'static str, Ty)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Variant {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Fields),
}

#[derive(Clone, Debug)]
pub enum Dv {
    Bool(bool),
    I(i128),
    U(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Dv>),
    /// Sequences, tuples, tuple structs, the values of a struct.
    List(Vec<Dv>),
    New(Box<Dv>),
    Map(Vec<(Dv, Dv)>),
    Variant(usize, Box<Dv>),
    Any(Val),
}

impl PartialEq for Dv {
    fn eq(&self, o: &Self) -> bool {
        use Dv::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (I(a), I(b)) => a == b,
            (U(a), U(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Char(a), Char(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Unit, Unit) | (None, None) => true,
            (Some(a), Some(b)) | (New(a), New(b)) => a == b,
            (List(a), List(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Variant(i, a), Variant(j, b)) => i == j && a == b,
            (Any(a), Any(b)) => a.same(b),
            _ => false,
        }
    }
}

pub const NAMES: &[&str] = &[
    "a", "b", "key", "Name", "x-y", "snake_case", "null", "true", "1", "1.5", "~", "", " ", "a b", "a: b", "- c", "#", "é", "中文", "type", "line\nbreak", "[x]", "'q'",
    "\"", "0x10", "&a", "*a", "!t", "|", "?", "a:", "---",
];

/// Whether a value of this type may be written as null.
fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Unit | Ty::UnitStruct | Ty::Option(_) | Ty::Any => true,
        Ty::Newtype(t) => nullable(t),
        _ => false,
    }
}

fn bytes_len(src: &mut Src) -> usize {
    let n = src.len(5);
    src.big(n, 300)
}

fn fields(src: &mut Src, depth: usize) -> Fields {
    let n = src.len(4);
    let n = src.big(n, 30);
    let mut v: Fields = vec![];
    for _ in 0..n {
        let name = *src.pick(NAMES);
        let t = Ty::gen(src, if n > 4 { 0 } else { depth });
        if v.iter().all(|(n, _)| *n != name) {
            v.push((name, t));
        }
    }
    v
}

impl Ty {
    /// A type, now and then inside many others.
    pub fn deep(src: &mut Src, depth: usize) -> Ty {
        let mut t = Ty::gen(src, depth);
        for _ in 0..src.big(0, 50) {
            let b = Box::new(t);
            t = match src.below(7) {
                0 => Ty::Newtype(b),
                1 => Ty::Tuple(vec![*b]),
                2 => Ty::TupleStruct(vec![Ty::Bool, *b]),
                3 => Ty::Struct(vec![("a", *b)]),
                4 => Ty::Enum(vec![("x", Variant::Unit), ("b", Variant::Newtype(*b))]),
                5 if !nullable(&b) => Ty::Option(b),
                _ => Ty::Seq(b),
            };
        }
        t
    }

    pub fn gen(src: &mut Src, depth: usize) -> Ty {
        let k = if depth == 0 { src.below(8) } else { src.below(19) };
        let sub = depth.saturating_sub(1);
        match k {
            0 => Ty::Str,
            1 => Ty::Int(src.chance(1, 2), *src.pick(&[4, 1, 2, 8, 16])),
            2 => Ty::Bool,
            3 => Ty::F64,
            4 => Ty::F32,
            5 => Ty::Char,
            6 => Ty::Bytes,
            7 => src.pick(&[Ty::Unit, Ty::UnitStruct]).clone(),
            8 | 9 => Ty::Seq(Box::new(Ty::gen(src, sub))),
            10 => {
                let t = Ty::gen(src, sub);
                Ty::Option(Box::new(if nullable(&t) { Ty::Str } else { t }))
            }
            11 => Ty::Tuple((0..src.range(1, 3)).map(|_| Ty::gen(src, sub)).collect()),
            12 => Ty::TupleStruct((0..src.range(2, 3)).map(|_| Ty::gen(src, sub)).collect()),
            13 => Ty::Newtype(Box::new(Ty::gen(src, sub))),
            14 => {
                let kd = if src.chance(1, 4) { sub } else { 0 };
                Ty::Map(Box::new(Ty::gen(src, kd)), Box::new(Ty::gen(src, sub)))
            }
            15 | 16 => Ty::Struct(fields(src, sub)),
            18 => Ty::Any,
            _ => {
                let n = src.range(1, 4);
                let mut v: Vec<(&'static str, Variant)> = vec![];
                for _ in 0..n {
                    let name = *src.pick(NAMES);
                    let var = match src.below(4) {
                        0 => Variant::Unit,
                        1 => Variant::Newtype(Ty::gen(src, sub)),
                        2 => Variant::Tuple((0..src.range(2, 3)).map(|_| Ty::gen(src, sub)).collect()),
                        _ => Variant::Struct(fields(src, sub)),
                    };
                    if v.iter().all(|(n, _)| *n != name) {
                        v.push((name, var));
                    }
                }
                Ty::Enum(v)
            }
        }
    }

    /// The number of values of this type in a collection.
    fn entries(&self, src: &mut Src) -> usize {
        if self.size() == 1 {
            src.wide(4, 0).0
        } else if self.size() > 12 {
            src.range(0, 1)
        } else {
            src.len(4)
        }
    }

    pub fn value(&self, src: &mut Src) -> Dv {
        match self {
            Ty::Any => Dv::Any(any_value(src, 2)),
            Ty::Bool => Dv::Bool(src.chance(1, 2)),
            Ty::Int(true, w) => {
                let bits = 8 * *w as u32;
                let (lo, hi) = if bits == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
                Dv::I(match src.below(5) {
                    0 => 0,
                    1 => src.below(10) as i128 - 5,
                    2 => lo + src.below(2) as i128,
                    3 => hi - src.below(2) as i128,
                    _ => {
                        let r = ((src.u64() as i128) << 64) ^ src.u64() as i128;
                        if bits == 128 {
                            r >> src.below(127)
                        } else {
                            r >> (128 - bits)
                        }
                    }
                })
            }
            Ty::Int(false, w) => {
                let bits = 8 * *w as u32;
                let hi = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                Dv::U(match src.below(4) {
                    0 => 0,
                    1 => src.below(10) as u128,
                    2 => hi - src.below(2) as u128,
                    _ => ((((src.u64() as u128) << 64) ^ src.u64() as u128) >> src.below(127)) & hi,
                })
            }
            Ty::F32 => Dv::F32(match src.below(3) {
                0 => *src.pick(&[0.0, -0.0, 1.0, -2.5, 0.1, 1e10, 1e-10, f32::MAX, f32::MIN_POSITIVE, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e-45]),
                1 => src.below(2000) as f32 / 8.0 - 100.0,
                _ => f32::from_bits(src.u64() as u32),
            }),
            Ty::F64 => Dv::F64(match src.below(3) {
                0 => *src.pick(&[0.0, -0.0, 1.0, -2.5, 0.1, 1e10, 1e21, 1e-10, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 1e16]),
                1 => src.below(2000) as f64 / 8.0 - 100.0,
                _ => f64::from_bits(src.u64()),
            }),
            Ty::Char => Dv::Char(*src.pick(&['a', '0', '7', '~', ' ', '\n', '-', '#', '"', '\'', '\\', 'é', '中', '🀄', '\t', ':', '\0', '[', '\r', '|'])),
            Ty::Str => Dv::Str(crate::props::string(src)),
            Ty::Bytes => Dv::Bytes((0..bytes_len(src)).map(|_| src.below(256) as u8).collect()),
            Ty::Unit | Ty::UnitStruct => Dv::Unit,
            Ty::Option(t) => {
                if src.chance(2, 3) {
                    Dv::Some(Box::new(t.value(src)))
                } else {
                    Dv::None
                }
            }
            Ty::Seq(t) => {
                let n = t.entries(src);
                Dv::List((0..n).map(|_| t.value(src)).collect())
            }
            Ty::Tuple(v) | Ty::TupleStruct(v) => Dv::List(v.iter().map(|t| t.value(src)).collect()),
            Ty::Newtype(t) => Dv::New(Box::new(t.value(src))),
            Ty::Map(k, v) => {
                let n = v.entries(src);
                let mut m: Vec<(Dv, Dv)> = vec![];
                let mut seen: Vec<Val> = vec![];
                for _ in 0..n {
                    let a = k.value(src);
                    let av = k.model(&a);
                    if seen.iter().any(|s| s.same(&av)) {
                        continue;
                    }
                    seen.push(av);
                    let b = v.value(src);
                    m.push((a, b));
                }
                Dv::Map(m)
            }
            Ty::Struct(f) => Dv::List(f.iter().map(|(_, t)| t.value(src)).collect()),
            Ty::Enum(v) => {
                let i = src.usize(v.len());
                let d = match &v[i].1 {
                    Variant::Unit => Dv::Unit,
                    Variant::Newtype(t) => t.value(src),
                    Variant::Tuple(v) => Dv::List(v.iter().map(|t| t.value(src)).collect()),
                    Variant::Struct(f) => Dv::List(f.iter().map(|(_, t)| t.value(src)).collect()),
                };
                Dv::Variant(i, Box::new(d))
            }
        }
    }

    /// The YAML data a value stands for (the usual serde data model).
    pub fn model(&self, d: &Dv) -> Val {
        let list = |v: &[Ty], d: &[Dv]| Val::Seq(v.iter().zip(d).map(|(t, d)| t.model(d)).collect());
        let fmap = |f: &Fields, d: &[Dv]| Val::Map(f.iter().zip(d).map(|((n, t), d)| (Val::s(n), t.model(d))).collect());
        match (self, d) {
            (_, Dv::Any(v)) => v.clone(),
            (_, Dv::Bool(b)) => Val::Bool(*b),
            (_, Dv::I(i)) => Val::Int(*i),
            (_, Dv::U(u)) => i128::try_from(*u).map(Val::Int).unwrap_or_else(|_| Val::Big(u.to_string())),
            (_, Dv::F32(f)) => Val::Float(if f.is_nan() { f64::NAN } else { f.to_string().parse().unwrap() }),
            (_, Dv::F64(f)) => Val::Float(*f),
            (_, Dv::Char(c)) => Val::Str(c.to_string()),
            (_, Dv::Str(s)) => Val::Str(s.clone()),
            (_, Dv::Bytes(b)) => Val::Seq(b.iter().map(|b| Val::Int(*b as i128)).collect()),
            (Ty::Unit | Ty::UnitStruct | Ty::Option(_), Dv::Unit | Dv::None) => Val::Null,
            (Ty::Option(t), Dv::Some(d)) | (Ty::Newtype(t), Dv::New(d)) => t.model(d),
            (Ty::Seq(t), Dv::List(v)) => Val::Seq(v.iter().map(|d| t.model(d)).collect()),
            (Ty::Tuple(t) | Ty::TupleStruct(t), Dv::List(v)) => list(t, v),
            (Ty::Struct(f), Dv::List(v)) => fmap(f, v),
            (Ty::Map(k, v), Dv::Map(m)) => Val::Map(m.iter().map(|(a, b)| (k.model(a), v.model(b))).collect()),
            (Ty::Enum(vs), Dv::Variant(i, d)) => {
                let (n, v) = &vs[*i];
                let inner = match (v, &**d) {
                    (Variant::Unit, _) => return Val::s(n),
                    (Variant::Newtype(t), d) => t.model(d),
                    (Variant::Tuple(t), Dv::List(d)) => list(t, d),
                    (Variant::Struct(f), Dv::List(d)) => fmap(f, d),
                    _ => unreachable!(),
                };
                Val::Map(vec![(Val::s(n), inner)])
            }
            _ => unreachable!("{self:?} {d:?}"),
        }
    }

    pub fn size(&self) -> usize {
        let f = |f: &Fields| f.iter().map(|(_, t)| t.size()).sum::<usize>();
        1 + match self {
            Ty::Option(t) | Ty::Seq(t) | Ty::Newtype(t) => t.size(),
            Ty::Tuple(v) | Ty::TupleStruct(v) => v.iter().map(Ty::size).sum(),
            Ty::Map(k, v) => k.size() + v.size(),
            Ty::Struct(v) => f(v),
            Ty::Enum(v) => v
                .iter()
                .map(|(_, v)| match v {
                    Variant::Unit => 1,
                    Variant::Newtype(t) => t.size(),
                    Variant::Tuple(v) => v.iter().map(Ty::size).sum(),
                    Variant::Struct(v) => f(v),
                })
                .sum(),
            _ => 0,
        }
    }
}

/// Data as formats without types know it.
fn any_value(src: &mut Src, depth: usize) -> Val {
    match src.below(if depth == 0 { 8 } else { 11 }) {
        0 => Val::Null,
        1 => Val::Bool(src.chance(1, 2)),
        2 => Val::Int(src.below(300) as i128 - 20),
        3 => Val::Int(src.u64() as i128 - (1 << 62)),
        4 => {
            let i = *src.pick(&[i64::MIN as i128 - 1, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, i128::MIN, i128::MAX]);
            if src.chance(1, 4) {
                Val::Big(u128::MAX.to_string())
            } else {
                Val::Int(i)
            }
        }
        5 => Val::Float(if src.chance(1, 2) { f64::from_bits(src.u64()) } else { src.below(999) as f64 / 8. }),
        6 | 7 => Val::Str(crate::props::string(src)),
        8 | 9 => {
            let (n, depth) = src.wide(4, depth - 1);
            Val::Seq((0..n).map(|_| any_value(src, depth)).collect())
        }
        _ => {
            let (n, depth) = src.wide(4, depth - 1);
            let mut m: Vec<(Val, Val)> = vec![];
            for _ in 0..n {
                let k = any_value(src, depth);
                if m.iter().all(|(x, _)| !x.same(&k)) {
                    m.push((k, any_value(src, depth)));
                }
            }
            Val::Map(m)
        }
    }
}

struct AnyV<'a>(&'a Val);

impl Serialize for AnyV<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Val::Null => s.serialize_unit(),
            Val::Bool(b) => s.serialize_bool(*b),
            Val::Int(i) => match (i64::try_from(*i), u64::try_from(*i)) {
                (Ok(i), _) => s.serialize_i64(i),
                (_, Ok(u)) => s.serialize_u64(u),
                _ => s.serialize_i128(*i),
            },
            Val::Big(b) => s.serialize_u128(b.parse().unwrap()),
            Val::Float(f) => s.serialize_f64(*f),
            Val::Str(x) => s.serialize_str(x),
            Val::Seq(v) => s.collect_seq(v.iter().map(AnyV)),
            Val::Map(m) => s.collect_map(m.iter().map(|(k, v)| (AnyV(k), AnyV(v)))),
            Val::Alias(_) => unreachable!(),
        }
    }
}

struct AnyR;

impl<'de> DeserializeSeed<'de> for AnyR {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        d.deserialize_any(AnyR)
    }
}
impl<'de> Visitor<'de> for AnyR {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Null)
    }
    fn visit_bool<E>(self, b: bool) -> Result<Val, E> {
        Ok(Val::Bool(b))
    }
    fn visit_i64<E>(self, i: i64) -> Result<Val, E> {
        Ok(Val::Int(i as i128))
    }
    fn visit_u64<E>(self, i: u64) -> Result<Val, E> {
        Ok(Val::Int(i as i128))
    }
    fn visit_i128<E>(self, i: i128) -> Result<Val, E> {
        Ok(Val::Int(i))
    }
    fn visit_u128<E>(self, i: u128) -> Result<Val, E> {
        Ok(i128::try_from(i).map_or_else(|_| Val::Big(i.to_string()), Val::Int))
    }
    fn visit_f64<E>(self, x: f64) -> Result<Val, E> {
        Ok(Val::Float(x))
    }
    fn visit_str<E>(self, s: &str) -> Result<Val, E> {
        Ok(Val::s(s))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(AnyR)? {
            v.push(x);
        }
        Ok(Val::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut m = vec![];
        while let Some(k) = a.next_key_seed(AnyR)? {
            m.push((k, a.next_value_seed(AnyR)?));
        }
        Ok(Val::Map(m))
    }
}

/// A value together with its type.
pub struct Typed<'a>(pub &'a Ty, pub &'a Dv);

impl Serialize for Typed<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (_, Dv::Any(v)) => AnyV(v).serialize(s),
            (_, Dv::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(_, 1), Dv::I(i)) => s.serialize_i8(*i as i8),
            (Ty::Int(_, 2), Dv::I(i)) => s.serialize_i16(*i as i16),
            (Ty::Int(_, 4), Dv::I(i)) => s.serialize_i32(*i as i32),
            (Ty::Int(_, 8), Dv::I(i)) => s.serialize_i64(*i as i64),
            (_, Dv::I(i)) => s.serialize_i128(*i),
            (Ty::Int(_, 1), Dv::U(i)) => s.serialize_u8(*i as u8),
            (Ty::Int(_, 2), Dv::U(i)) => s.serialize_u16(*i as u16),
            (Ty::Int(_, 4), Dv::U(i)) => s.serialize_u32(*i as u32),
            (Ty::Int(_, 8), Dv::U(i)) => s.serialize_u64(*i as u64),
            (_, Dv::U(i)) => s.serialize_u128(*i),
            (_, Dv::F32(f)) => s.serialize_f32(*f),
            (_, Dv::F64(f)) => s.serialize_f64(*f),
            (_, Dv::Char(c)) => s.serialize_char(*c),
            (_, Dv::Str(x)) => s.serialize_str(x),
            (_, Dv::Bytes(b)) => s.serialize_bytes(b),
            (Ty::UnitStruct, Dv::Unit) => s.serialize_unit_struct("U"),
            (_, Dv::Unit) => s.serialize_unit(),
            (_, Dv::None) => s.serialize_none(),
            (Ty::Option(t), Dv::Some(d)) => s.serialize_some(&Typed(t, d)),
            (Ty::Newtype(t), Dv::New(d)) => s.serialize_newtype_struct("N", &Typed(t, d)),
            (Ty::Seq(t), Dv::List(v)) => {
                let mut q = s.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?;
                for d in v {
                    q.serialize_element(&Typed(t, d))?;
                }
                q.end()
            }
            (Ty::Tuple(t), Dv::List(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (t, d) in t.iter().zip(v) {
                    q.serialize_element(&Typed(t, d))?;
                }
                q.end()
            }
            (Ty::TupleStruct(t), Dv::List(v)) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for (t, d) in t.iter().zip(v) {
                    q.serialize_field(&Typed(t, d))?;
                }
                q.end()
            }
            (Ty::Map(k, t), Dv::Map(m)) => {
                let mut q = s.serialize_map(if m.len() % 2 == 0 { Some(m.len()) } else { None })?;
                for (i, (a, b)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Typed(k, a), &Typed(t, b))?;
                    } else {
                        q.serialize_key(&Typed(k, a))?;
                        q.serialize_value(&Typed(t, b))?;
                    }
                }
                q.end()
            }
            (Ty::Struct(f), Dv::List(v)) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for ((n, t), d) in f.iter().zip(v) {
                    q.serialize_field(n, &Typed(t, d))?;
                }
                q.end()
            }
            (Ty::Enum(vs), Dv::Variant(i, d)) => {
                let (n, v) = &vs[*i];
                let ix = *i as u32;
                match (v, &**d) {
                    (Variant::Unit, _) => s.serialize_unit_variant("E", ix, n),
                    (Variant::Newtype(t), d) => s.serialize_newtype_variant("E", ix, n, &Typed(t, d)),
                    (Variant::Tuple(t), Dv::List(v)) => {
                        let mut q = s.serialize_tuple_variant("E", ix, n, v.len())?;
                        for (t, d) in t.iter().zip(v) {
                            q.serialize_field(&Typed(t, d))?;
                        }
                        q.end()
                    }
                    (Variant::Struct(f), Dv::List(v)) => {
                        let mut q = s.serialize_struct_variant("E", ix, n, v.len())?;
                        for ((n, t), d) in f.iter().zip(v) {
                            q.serialize_field(n, &Typed(t, d))?;
                        }
                        q.end()
                    }
                    _ => unreachable!(),
                }
            }
            (t, d) => unreachable!("{t:?} {d:?}"),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Ty);

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Vec<u8>, E> {
        Ok(s.as_bytes().to_vec())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
        let mut v = vec![];
        while let Some(b) = a.next_element()? {
            v.push(b);
        }
        Ok(v)
    }
}

/// Visits everything that is not a leaf.
struct V<'a>(&'a Ty);

fn list<'de, A: SeqAccess<'de>>(t: &[Ty], a: &mut A) -> Result<Dv, A::Error> {
    let mut v = vec![];
    for (i, t) in t.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(d) => v.push(d),
            None => return Err(de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(Dv::List(v))
}

struct Name<'a>(Vec<&'a str>);
impl<'de> DeserializeSeed<'de> for Name<'_> {
    /// The index, or none for a name that is not known.
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Name<'_> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        Ok(self.0.iter().position(|n| *n == s))
    }
}

fn struct_map<'de, A: MapAccess<'de>>(f: &Fields, a: &mut A) -> Result<Dv, A::Error> {
    let mut v: Vec<Option<Dv>> = vec![None; f.len()];
    while let Some(i) = a.next_key_seed(Name(f.iter().map(|x| x.0).collect()))? {
        match i {
            Some(i) => {
                if v[i].is_some() {
                    return Err(de::Error::duplicate_field(f[i].0));
                }
                v[i] = Some(a.next_value_seed(Seed(&f[i].1))?)
            }
            None => {
                a.next_value::<de::IgnoredAny>()?;
            }
        }
    }
    let mut out = vec![];
    for (i, d) in v.into_iter().enumerate() {
        match d {
            Some(d) => out.push(d),
            None if matches!(f[i].1, Ty::Option(_)) => out.push(Dv::None),
            None => return Err(de::Error::missing_field(f[i].0)),
        }
    }
    Ok(Dv::List(out))
}

struct Sv<'a>(&'a Fields);
impl<'de> Visitor<'de> for Sv<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        struct_map(self.0, &mut a)
    }
}
struct Tv<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for Tv<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        list(self.0, &mut a)
    }
}

impl<'de> Visitor<'de> for V<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a value of {:?}", self.0)
    }
    fn visit_unit<E>(self) -> Result<Dv, E> {
        match self.0 {
            Ty::Option(_) => Ok(Dv::None),
            _ => Ok(Dv::Unit),
        }
    }
    fn visit_none<E>(self) -> Result<Dv, E> {
        Ok(Dv::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        match self.0 {
            Ty::Option(t) => Seed(t).deserialize(d).map(|d| Dv::Some(Box::new(d))),
            t => unreachable!("some for {t:?}"),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d).map(|d| Dv::New(Box::new(d))),
            t => unreachable!("newtype for {t:?}"),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut v = vec![];
                while let Some(d) = a.next_element_seed(Seed(t))? {
                    v.push(d);
                }
                Ok(Dv::List(v))
            }
            Ty::Tuple(t) | Ty::TupleStruct(t) => list(t, &mut a),
            // As derived code does.
            Ty::Struct(f) => list(&f.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), &mut a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        match self.0 {
            Ty::Map(k, t) => {
                let mut m = vec![];
                while let Some(x) = a.next_key_seed(Seed(k))? {
                    m.push((x, a.next_value_seed(Seed(t))?));
                }
                Ok(Dv::Map(m))
            }
            Ty::Struct(f) => struct_map(f, &mut a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Dv, A::Error> {
        let Ty::Enum(vs) = self.0 else { unreachable!() };
        let (i, v) = a.variant_seed(Name(vs.iter().map(|x| x.0).collect()))?;
        let Some(i) = i else { return Err(de::Error::custom("unknown variant")) };
        let d = match &vs[i].1 {
            Variant::Unit => {
                v.unit_variant()?;
                Dv::Unit
            }
            Variant::Newtype(t) => v.newtype_variant_seed(Seed(t))?,
            Variant::Tuple(t) => v.tuple_variant(t.len(), Tv(t))?,
            Variant::Struct(f) => v.struct_variant(&[], Sv(f))?,
        };
        Ok(Dv::Variant(i, Box::new(d)))
    }
}

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Dv;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        match self.0 {
            Ty::Bool => bool::deserialize(d).map(Dv::Bool),
            Ty::Int(true, 1) => i8::deserialize(d).map(|i| Dv::I(i as i128)),
            Ty::Int(true, 2) => i16::deserialize(d).map(|i| Dv::I(i as i128)),
            Ty::Int(true, 4) => i32::deserialize(d).map(|i| Dv::I(i as i128)),
            Ty::Int(true, 8) => i64::deserialize(d).map(|i| Dv::I(i as i128)),
            Ty::Int(true, _) => i128::deserialize(d).map(Dv::I),
            Ty::Int(false, 1) => u8::deserialize(d).map(|i| Dv::U(i as u128)),
            Ty::Int(false, 2) => u16::deserialize(d).map(|i| Dv::U(i as u128)),
            Ty::Int(false, 4) => u32::deserialize(d).map(|i| Dv::U(i as u128)),
            Ty::Int(false, 8) => u64::deserialize(d).map(|i| Dv::U(i as u128)),
            Ty::Int(false, _) => u128::deserialize(d).map(Dv::U),
            Ty::F32 => f32::deserialize(d).map(Dv::F32),
            Ty::F64 => f64::deserialize(d).map(Dv::F64),
            Ty::Char => char::deserialize(d).map(Dv::Char),
            Ty::Str => String::deserialize(d).map(Dv::Str),
            Ty::Bytes => d.deserialize_byte_buf(BytesV).map(Dv::Bytes),
            Ty::Unit => d.deserialize_unit(V(self.0)),
            Ty::UnitStruct => d.deserialize_unit_struct("U", V(self.0)),
            Ty::Option(_) => d.deserialize_option(V(self.0)),
            Ty::Seq(_) => d.deserialize_seq(V(self.0)),
            Ty::Tuple(v) => d.deserialize_tuple(v.len(), V(self.0)),
            Ty::TupleStruct(v) => d.deserialize_tuple_struct("T", v.len(), V(self.0)),
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", V(self.0)),
            Ty::Map(..) => d.deserialize_map(V(self.0)),
            Ty::Struct(_) => d.deserialize_struct("S", &[], V(self.0)),
            Ty::Enum(_) => d.deserialize_enum("E", &[], V(self.0)),
            Ty::Any => d.deserialize_any(AnyR).map(Dv::Any),
        }
    }
}

thread_local! {
    static ROOT: std::cell::RefCell<Ty> = const { std::cell::RefCell::new(Ty::Unit) };
}

/// A value of the type given to `with_root`, for functions that want an owned
/// `Deserialize` type.
pub struct Rooted(pub Dv);

impl<'de> Deserialize<'de> for Rooted {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = ROOT.with(|r| r.borrow().clone());
        Seed(&t).deserialize(d).map(Rooted)
    }
}

pub fn with_root<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    ROOT.with(|r| *r.borrow_mut() = t.clone());
    f()
}

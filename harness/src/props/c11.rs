//! Serialization round trips.
use super::c10::{compare, Build};
use super::common::*;
use crate::{doc::*, dynty::*, engine::*, model::*};
use serde::{de::DeserializeSeed, Deserialize, Serialize};
use std::collections::BTreeMap;
use yaml_peg::{parser::Anchors, serde::*, NodeArc, NodeRc};

fn err(what: &str) -> impl Fn(SerdeError) -> String + '_ {
    move |e| format!("{what}: {e}")
}

fn typed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 4);
    let t = Ty::deep(src, depth);
    let d = t.value(src);
    announce(ctx, || format!("{t:?}\n{d:?}"));
    if t.size() > 2 {
        ctx.nontrivial(hash_str(&format!("{d:?}")));
    }
    let want = t.model(&d);
    ctx.label(want.kind());
    let v = Typed(&t, &d);
    let n: NodeRc = to_node(&v).map_err(err("to_node"))?;
    let got = to_val(&n)?;
    if !got.same(&want) {
        return Err(format!("to_node gives {got:?}, expected {want:?}"));
    }
    let a: NodeArc = to_arc_node(&v).map_err(err("to_arc_node"))?;
    if !to_val(&a)?.same(&want) {
        return Err(format!("to_arc_node gives {a:?}, expected {want:?}"));
    }
    let s = to_string(&v).map_err(err("to_string"))?;
    expect_rc(&s, std::slice::from_ref(&want)).map_err(|e| format!("to_string gives {s:?}\n{e}"))?;
    // Back, from both nodes and from the text.
    let check = |from: &str, r: Result<Dv, SerdeError>| match r {
        Ok(x) if x == d => Ok(()),
        Ok(x) => Err(format!("from {from}: {x:?}\n expected {d:?}\n text {s:?}")),
        Err(e) => Err(format!("from {from}: {e}\n expected {d:?}\n text {s:?}")),
    };
    check("a node", Seed(&t).deserialize(n))?;
    check("an Arc node", Seed(&t).deserialize(a))?;
    let mut r = with_root(&t, || from_str::<Rooted>(&s)).map_err(|e| format!("from_str: {e}\n text {s:?}"))?;
    if r.len() != 1 {
        return Err(format!("from_str gives {} values", r.len()));
    }
    check("the text", Ok(r.remove(0).0))?;
    // Several documents are several values.
    let two = format!("{s}---\n{s}");
    let r = with_root(&t, || from_str::<Rooted>(&two)).map_err(|e| format!("from_str of two documents: {e}\n text {two:?}"))?;
    if r.len() != 2 {
        return Err(format!("from_str of two documents gives {} values", r.len()));
    }
    for x in r {
        check("two documents", Ok(x.0))?;
    }
    Ok(())
}

/// Nodes are data like any other.
fn nodes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 4);
    let mut b = Build { src, table: Anchors::new(), names: 0, tags: false, anchors: false, deep: false };
    let n = b.node(depth, false);
    announce(ctx, || format!("{n:?}"));
    ctx.nontrivial(hash_str(&format!("{n:?}")));
    let v = to_val(&n)?;
    // Integers beyond the range of u128 cannot be passed through serde.
    let mut big = false;
    each(&v, &mut |v| big |= matches!(v, Val::Big(s) if s.parse::<u128>().is_err()));
    if big {
        ctx.label("integer beyond 128 bits");
        return match to_node(&n) {
            Err(_) => Ok(()),
            Ok(m) => Err(format!("an integer beyond 128 bits became {m:?}")),
        };
    }
    let none = Anchors::new();
    let m: NodeRc = to_node(&n).map_err(err("to_node"))?;
    compare(&n, &none, &m, &none, "to_node ")?;
    let m = NodeRc::deserialize(n.clone()).map_err(err("deserialize"))?;
    compare(&n, &none, &m, &none, "deserialize ")?;
    let a: NodeArc = to_arc_node(&n).map_err(err("to_arc_node"))?;
    if !to_val(&a)?.same(&v) {
        return Err(format!("to_arc_node gives {a:?}"));
    }
    let m = NodeRc::deserialize(a).map_err(err("deserialize Arc as Rc"))?;
    compare(&n, &none, &m, &none, "Arc to Rc ")?;
    let s = to_string(&n).map_err(err("to_string"))?;
    let m = from_str::<NodeRc>(&s).map_err(|e| format!("from_str: {e}\n{s:?}"))?;
    if m.len() != 1 {
        return Err(format!("{} documents", m.len()));
    }
    compare(&n, &none, &m[0], &none, "text ")
}

pub fn each(v: &Val, f: &mut dyn FnMut(&Val)) {
    f(v);
    match v {
        Val::Seq(s) => s.iter().for_each(|v| each(v, f)),
        Val::Map(m) => m.iter().for_each(|(k, v)| {
            each(k, f);
            each(v, f)
        }),
        _ => {}
    }
}

/// `from_str` sees what `parse` sees, aliases written out.
fn parsed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { anchors: src.chance(1, 2), tags: src.chance(1, 4), block_scalars: src.chance(1, 2), multiline: src.chance(1, 3), ..Cfg::default() };
    let st = style(src);
    let (n, text) = super::c02::gen_doc(src, cfg, st);
    announce(ctx, || format!("{text}\n{text:?}"));
    ctx.nontrivial(hash_str(&text));
    let want = n.val(false);
    let mut big = false;
    each(&want, &mut |v| big |= matches!(v, Val::Big(s) if s.parse::<u128>().is_err()));
    if big {
        ctx.discarded = true;
        return Ok(());
    }
    let m = from_str::<NodeRc>(&text).map_err(|e| format!("from_str: {e}"))?;
    diff(std::slice::from_ref(&want), &to_vals(&m)?)
}

// Derived types whose attributes buffer the data before they look at it.

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Inner {
    p: i64,
    q: Option<String>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Flat {
    id: u32,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, Vec<i64>>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "kind")]
enum Internal {
    Empty,
    One { x: f64, s: String },
    Two(Inner),
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    New(String),
    Tup(i32, bool),
    Rec { a: Vec<u8>, b: char },
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Untagged {
    B(bool),
    I(i64),
    F(f64),
    S(String),
    L(Vec<Untagged>),
    M(BTreeMap<String, Untagged>),
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(rename_all = "kebab-case")]
struct Attrs {
    long_name: String,
    #[serde(default)]
    with_default: u8,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    maybe: Option<Box<Attrs>>,
    #[serde(rename = "42")]
    number_key: (i8, u16, f32),
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Zoo {
    flat: Flat,
    internal: Vec<Internal>,
    adjacent: Vec<Adjacent>,
    untagged: Untagged,
    attrs: Attrs,
    fixed: [i32; 3],
    map: BTreeMap<i16, BTreeMap<char, Option<bool>>>,
    result: Result<u64, String>,
    unit: (),
}

fn untagged(src: &mut Src, depth: usize) -> Untagged {
    match if depth == 0 { src.below(4) } else { src.below(6) } {
        0 => Untagged::B(src.chance(1, 2)),
        1 => Untagged::I(src.u64() as i64 >> src.below(60)),
        2 => Untagged::F(src.below(4000) as f64 / 16.0 - 100.0),
        3 => Untagged::S(super::c10::string(src)),
        4 => Untagged::L((0..src.len(3)).map(|_| untagged(src, depth - 1)).collect()),
        _ => Untagged::M((0..src.len(3)).map(|_| (super::c10::string(src), untagged(src, depth - 1))).collect()),
    }
}

fn inner(src: &mut Src) -> Inner {
    Inner { p: src.u64() as i64, q: src.chance(1, 2).then(|| super::c10::string(src)) }
}

fn attrs(src: &mut Src, depth: usize) -> Attrs {
    Attrs {
        long_name: super::c10::string(src),
        with_default: src.below(256) as u8,
        maybe: (depth > 0 && src.chance(1, 2)).then(|| Box::new(attrs(src, depth - 1))),
        number_key: (src.below(256) as i8, src.below(65536) as u16, f32::from_bits(src.u64() as u32 & 0x7f7f_ffff)),
    }
}

fn derived(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let z = Zoo {
        flat: Flat {
            id: src.u64() as u32,
            inner: inner(src),
            rest: (0..src.len(3)).map(|i| (format!("{i}{}", super::c10::string(src)), (0..src.len(2)).map(|_| src.u64() as i64).collect())).collect(),
        },
        internal: (0..src.len(3))
            .map(|_| match src.below(3) {
                0 => Internal::Empty,
                1 => Internal::One { x: src.below(999) as f64 / 8.0, s: super::c10::string(src) },
                _ => Internal::Two(inner(src)),
            })
            .collect(),
        adjacent: (0..src.len(3))
            .map(|_| match src.below(4) {
                0 => Adjacent::Unit,
                1 => Adjacent::New(super::c10::string(src)),
                2 => Adjacent::Tup(src.u64() as i32, src.chance(1, 2)),
                _ => Adjacent::Rec { a: (0..src.len(3)).map(|_| src.below(256) as u8).collect(), b: *src.pick(&['a', '1', '\n', '中']) },
            })
            .collect(),
        untagged: untagged(src, 3),
        attrs: attrs(src, 2),
        fixed: [src.u64() as i32, 0, -1],
        map: (0..src.len(3))
            .map(|_| {
                let m = (0..src.len(2)).map(|_| (*src.pick(&['x', '5', ' ', '~']), *src.pick(&[None, Some(true), Some(false)]))).collect();
                (src.u64() as i16, m)
            })
            .collect(),
        result: if src.chance(1, 2) { Ok(src.u64()) } else { Err(super::c10::string(src)) },
        unit: (),
    };
    announce(ctx, || format!("{z:#?}"));
    ctx.nontrivial(hash_str(&format!("{z:?}")));
    let n = to_node(&z).map_err(err("to_node"))?;
    let back = Zoo::deserialize(n).map_err(err("from a node"))?;
    if back != z {
        return Err(format!("from a node: {back:?}\n expected {z:?}"));
    }
    let s = to_string(&z).map_err(err("to_string"))?;
    let back = from_str::<Zoo>(&s).map_err(|e| format!("from_str: {e}\n{s}"))?;
    if back != [z.clone()] {
        return Err(format!("from the text: {back:?}\n expected {z:?}\n{s}"));
    }
    Ok(())
}

/// Data of another format, as its deserializer presents it.
#[derive(Clone, Debug)]
enum Tok {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Borrowed(&'static str),
    Owned(String),
    Unit,
    None,
    Some(Box<Tok>),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
}

type TokErr = serde::de::value::Error;

impl<'de> serde::de::IntoDeserializer<'de, TokErr> for Tok {
    type Deserializer = Tok;
    fn into_deserializer(self) -> Tok {
        self
    }
}

impl<'de> serde::Deserializer<'de> for Tok {
    type Error = TokErr;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        use serde::de::value::{MapDeserializer, SeqDeserializer};
        match self {
            Tok::Bool(x) => v.visit_bool(x),
            Tok::I8(x) => v.visit_i8(x),
            Tok::I16(x) => v.visit_i16(x),
            Tok::I32(x) => v.visit_i32(x),
            Tok::I64(x) => v.visit_i64(x),
            Tok::I128(x) => v.visit_i128(x),
            Tok::U8(x) => v.visit_u8(x),
            Tok::U16(x) => v.visit_u16(x),
            Tok::U32(x) => v.visit_u32(x),
            Tok::U64(x) => v.visit_u64(x),
            Tok::U128(x) => v.visit_u128(x),
            Tok::F32(x) => v.visit_f32(x),
            Tok::F64(x) => v.visit_f64(x),
            Tok::Char(x) => v.visit_char(x),
            Tok::Str(x) => v.visit_str(&x),
            Tok::Borrowed(x) => v.visit_borrowed_str(x),
            Tok::Owned(x) => v.visit_string(x),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some(x) => v.visit_some(*x),
            Tok::Seq(x) => v.visit_seq(SeqDeserializer::new(x.into_iter())),
            Tok::Map(x) => v.visit_map(MapDeserializer::new(x.into_iter())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl Tok {
    fn gen(src: &mut Src, depth: usize) -> Tok {
        let n = if src.chance(1, 4) { src.u64() } else { src.below(200) };
        match src.below(if depth == 0 { 19 } else { 26 }) {
            0 => Tok::Bool(n % 2 == 0),
            1 => Tok::I8(n as i8),
            2 => Tok::I16(n as i16),
            3 => Tok::I32(n as i32),
            4 => Tok::I64(n as i64),
            5 => Tok::I128(if src.chance(1, 3) { *src.pick(&[i128::MIN, i128::MAX, u64::MAX as i128]) } else { n as i64 as i128 * 3 }),
            6 => Tok::U8(n as u8),
            7 => Tok::U16(n as u16),
            8 => Tok::U32(n as u32),
            9 => Tok::U64(n),
            10 => Tok::U128(if src.chance(1, 3) { u128::MAX - n as u128 } else { n as u128 }),
            11 => Tok::F32(if src.chance(1, 2) { f32::from_bits(n as u32) } else { n as f32 / 8. }),
            12 => Tok::F64(if src.chance(1, 2) { f64::from_bits(n) } else { n as f64 / 8. }),
            13 => Tok::Char(*src.pick(&['a', '1', '~', 'é', '\n', ' '])),
            14 => Tok::Str(src.pick(&["", "a", "null", "1", "x y", "é"]).to_string()),
            15 => Tok::Borrowed(*src.pick(&["", "b", "true", "1.5", "~", "{}"])),
            16 => Tok::Owned(src.pick(&["", "c", "a", "-", "0x1"]).to_string()),
            17 => Tok::Unit,
            18 => Tok::None,
            19 | 20 => Tok::Some(Box::new(Tok::gen(src, depth - 1))),
            21 | 22 => {
                let (n, depth) = src.wide(5, depth - 1);
                Tok::Seq((0..n).map(|_| Tok::gen(src, depth)).collect())
            }
            _ => {
                let (n, depth) = src.wide(5, depth - 1);
                let mut m: Vec<(Tok, Tok)> = vec![];
                for _ in 0..n {
                    let k = if !m.is_empty() && src.chance(1, 4) {
                        m[src.usize(m.len())].0.clone()
                    } else {
                        Tok::gen(src, depth.min(1))
                    };
                    m.push((k, Tok::gen(src, depth)));
                }
                Tok::Map(m)
            }
        }
    }
    fn model(&self) -> Val {
        match self {
            Tok::Bool(x) => Val::Bool(*x),
            Tok::I8(x) => Val::Int(*x as i128),
            Tok::I16(x) => Val::Int(*x as i128),
            Tok::I32(x) => Val::Int(*x as i128),
            Tok::I64(x) => Val::Int(*x as i128),
            Tok::I128(x) => Val::Int(*x),
            Tok::U8(x) => Val::Int(*x as i128),
            Tok::U16(x) => Val::Int(*x as i128),
            Tok::U32(x) => Val::Int(*x as i128),
            Tok::U64(x) => Val::Int(*x as i128),
            Tok::U128(x) => i128::try_from(*x).map_or_else(|_| Val::Big(x.to_string()), Val::Int),
            Tok::F32(x) => Val::Float(*x as f64),
            Tok::F64(x) => Val::Float(*x),
            Tok::Char(x) => Val::Str(x.to_string()),
            Tok::Str(x) | Tok::Owned(x) => Val::Str(x.clone()),
            Tok::Borrowed(x) => Val::s(x),
            Tok::Unit | Tok::None => Val::Null,
            Tok::Some(x) => x.model(),
            Tok::Seq(v) => Val::Seq(v.iter().map(Tok::model).collect()),
            Tok::Map(m) => {
                let mut out: Vec<(Val, Val)> = vec![];
                for (k, v) in m {
                    let k = k.model();
                    out.retain(|(o, _)| !o.same(&k));
                    out.push((k, v.model()));
                }
                Val::Map(out)
            }
        }
    }
}

/// A node takes the data of any format; a repeated key keeps the later value,
/// as in documents.
fn foreign(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 4);
    let t = Tok::gen(src, depth);
    announce(ctx, || format!("{t:#?}"));
    let want = t.model();
    ctx.label(want.kind());
    if want.size() > 2 {
        ctx.nontrivial(hash_str(&format!("{t:?}")));
    }
    let n = NodeRc::deserialize(t.clone()).map_err(|e| format!("rejected: {e}"))?;
    let a = NodeArc::deserialize(t.clone()).map_err(|e| format!("Arc: rejected: {e}"))?;
    diff(std::slice::from_ref(&want), &[to_val(&n)?])?;
    diff(std::slice::from_ref(&want), &[to_val(&a)?]).map_err(|e| format!("Arc: {e}"))
}

/// Collections of many entries.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = many(src);
    fn there<T: Serialize + for<'a> Deserialize<'a> + PartialEq>(t: &T) -> Result<(), String> {
        let text = yaml_peg::serde::to_string(t).map_err(|e| format!("to_string: {e}"))?;
        let mut v = yaml_peg::serde::from_str::<T>(&text).map_err(|e| format!("from_str: {e}\n{}", text.chars().take(2000).collect::<String>()))?;
        if v.len() != 1 || v.remove(0) != *t {
            return Err(format!("another value is back from\n{}", text.chars().take(2000).collect::<String>()));
        }
        let node = yaml_peg::serde::to_node(t).map_err(|e| format!("to_node: {e}"))?;
        match T::deserialize(node) {
            Ok(b) if b == *t => Ok(()),
            Ok(_) => Err("another value is back from the node".into()),
            Err(e) => Err(format!("from the node: {e}")),
        }
    }
    let seed = src.u64() | 1;
    let num = |i: usize| (i as u64 + 1).wrapping_mul(seed) >> 40;
    let kind = src.below(6);
    announce(ctx, || format!("{n} entries of kind {kind}, seed {seed}"));
    ctx.nontrivial(seed ^ n as u64);
    match kind {
        0 => there(&(0..n).map(num).collect::<Vec<u64>>()),
        1 => there(&(0..n).map(|i| (format!("k{i}"), num(i) as i32)).collect::<std::collections::BTreeMap<_, _>>()),
        2 => there(&(0..n).map(|i| (i as u32, Some(num(i) as u8).filter(|n| n % 3 > 0))).collect::<std::collections::HashMap<_, _>>()),
        3 => there(&(0..n).map(|i| (num(i) as i64, num(i) % 2 > 0, format!("x{i}"))).collect::<Vec<_>>()),
        4 => there(&(0..n).map(|i| vec![num(i) as u8; i % 3]).collect::<Vec<_>>()),
        _ => there(&(0..n).map(|i| format!("l{}\n", num(i))).collect::<String>()),
    }
}

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "a value of a composed type (distinct by value), a node tree, or a parsed document (distinct by text)",
        assumptions: &[
            "types that cannot tell their values apart in YAML (an option of a type that is null itself) are not generated",
            "the keys of a map are distinct as YAML values",
        ],
        targets: vec![
            Target { name: "typed", f: typed, quick: 450_000, thorough: 5_000_000, guided: 0 },
            Target { name: "derived", f: derived, quick: 60_000, thorough: 600_000, guided: 0 },
            Target { name: "nodes", f: nodes, quick: 180_000, thorough: 2_000_000, guided: 0 },
            Target { name: "foreign", f: foreign, quick: 180_000, thorough: 1_000_000, guided: 0 },
            Target { name: "wide", f: wide, quick: 800, thorough: 10_000, guided: 0 },
            Target { name: "parsed", f: parsed, quick: 120_000, thorough: 1_000_000, guided: 0 },
        ],
    }
}

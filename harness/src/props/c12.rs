//! Data that does not fit its type is an error.
use super::common::*;
use crate::{doc::*, dynty::*, engine::*, model::*};
use serde::{de::DeserializeSeed, Deserialize};
use std::collections::BTreeMap;
use yaml_peg::{parser::Anchors, repr::Repr, serde::*, Node, NodeArc, NodeRc, Yaml};

// ------------------------------------------------- reference deserialization

/// The position when the node itself does not fit.
type Fail = Option<u64>;

fn name<'a, R: Repr>(n: &'a Node<R>) -> Result<&'a str, Fail> {
    match n.yaml() {
        Yaml::Str(s) => Ok(s),
        _ => Err(Some(n.pos())),
    }
}

fn int<R: Repr>(n: &Node<R>, signed: bool, w: u8) -> Result<Dv, Fail> {
    let at = Err(Some(n.pos()));
    let Yaml::Int(t) = n.yaml() else { return at };
    let bits = 8 * w as u32;
    if signed {
        match int_text(t) {
            Some(v) if bits == 128 || (-(1i128 << (bits - 1))..1i128 << (bits - 1)).contains(&v) => Ok(Dv::I(v)),
            _ => at,
        }
    } else {
        let v = int_text(t).map(u128::try_from).map(Result::ok).unwrap_or_else(|| t.parse().ok());
        match v {
            Some(v) if bits == 128 || v < 1 << bits => Ok(Dv::U(v)),
            _ => at,
        }
    }
}

fn tuple<'a, R: Repr + 'a>(t: &mut dyn Iterator<Item = &Ty>, v: &[Node<R>]) -> Result<Dv, Fail> {
    let mut out = vec![];
    for (i, t) in t.enumerate() {
        out.push(fit(t, v.get(i).ok_or(None)?)?);
    }
    Ok(Dv::List(out))
}

fn fields<R: Repr>(f: &Fields, n: &Node<R>) -> Result<Dv, Fail> {
    let Yaml::Map(m) = n.yaml() else { return Err(Some(n.pos())) };
    let mut got = BTreeMap::new();
    for (k, v) in m {
        let k = name(k)?;
        if let Some((_, t)) = f.iter().find(|x| x.0 == k) {
            got.insert(k, fit(t, v)?);
        }
    }
    let mut out = vec![];
    for (k, t) in f {
        match got.remove(k) {
            Some(d) => out.push(d),
            None if matches!(t, Ty::Option(_)) => out.push(Dv::None),
            None => return Err(None),
        }
    }
    Ok(Dv::List(out))
}

/// The data of the node as it is.
fn whatever<R: Repr>(n: &Node<R>) -> Result<Val, Fail> {
    let bad = Err(Some(n.pos()));
    Ok(match n.yaml() {
        Yaml::Null => Val::Null,
        Yaml::Bool(b) => Val::Bool(*b),
        Yaml::Int(t) => match int_text(t) {
            Some(i) => Val::Int(i),
            None if t.parse::<u128>().is_ok() => Val::Big(t.parse::<u128>().unwrap().to_string()),
            None => return bad,
        },
        Yaml::Float(f) => Val::Float(f.parse::<f64>().map_err(|_| Some(n.pos()))?),
        Yaml::Str(s) => Val::s(s),
        Yaml::Seq(v) => Val::Seq(v.iter().map(whatever).collect::<Result<_, _>>()?),
        Yaml::Map(m) => {
            let mut out = vec![];
            for (k, v) in m {
                out.push((whatever(k)?, whatever(v)?));
            }
            Val::Map(out)
        }
        Yaml::Alias(_) => return bad,
    })
}

/// The documented reading of a node as a value of a type.
pub fn fit<R: Repr>(t: &Ty, n: &Node<R>) -> Result<Dv, Fail> {
    let bad = Err(Some(n.pos()));
    match (t, n.yaml()) {
        (Ty::Any, _) => whatever(n).map(Dv::Any),
        (Ty::Option(_), Yaml::Null) => Ok(Dv::None),
        (Ty::Option(t), _) => fit(t, n).map(|d| Dv::Some(Box::new(d))),
        (Ty::Newtype(t), _) => fit(t, n).map(|d| Dv::New(Box::new(d))),
        (Ty::Bool, Yaml::Bool(b)) => Ok(Dv::Bool(*b)),
        (Ty::Int(s, w), _) => int(n, *s, *w),
        (Ty::F32, Yaml::Float(f)) => f.parse().map(Dv::F32).or(bad),
        (Ty::F64, Yaml::Float(f)) => f.parse().map(Dv::F64).or(bad),
        (Ty::F32, Yaml::Int(i)) => int_text(i).map(|i| Dv::F32(i as f32)).ok_or(Some(n.pos())),
        (Ty::F64, Yaml::Int(i)) => int_text(i).map(|i| Dv::F64(i as f64)).ok_or(Some(n.pos())),
        (Ty::Char, Yaml::Str(s) | Yaml::Int(s)) => {
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Ok(Dv::Char(c)),
                _ => bad,
            }
        }
        (Ty::Str, Yaml::Str(s) | Yaml::Int(s) | Yaml::Float(s)) => Ok(Dv::Str(s.clone())),
        (Ty::Str, Yaml::Bool(b)) => Ok(Dv::Str(b.to_string())),
        (Ty::Str, Yaml::Null) => Ok(Dv::Str("null".into())),
        (Ty::Bytes, Yaml::Str(s)) => Ok(Dv::Bytes(s.as_bytes().to_vec())),
        (Ty::Bytes, Yaml::Seq(v)) => v
            .iter()
            .map(|n| match int(n, false, 1)? {
                Dv::U(b) => Ok(b as u8),
                _ => unreachable!(),
            })
            .collect::<Result<_, _>>()
            .map(Dv::Bytes),
        (Ty::Unit | Ty::UnitStruct, Yaml::Null) => Ok(Dv::Unit),
        (Ty::Seq(t), Yaml::Seq(v)) => v.iter().map(|n| fit(t, n)).collect::<Result<_, _>>().map(Dv::List),
        (Ty::Tuple(t) | Ty::TupleStruct(t), Yaml::Seq(v)) => tuple(&mut t.iter(), v),
        (Ty::Struct(f), Yaml::Seq(v)) => tuple(&mut f.iter().map(|x| &x.1), v),
        (Ty::Struct(f), _) => fields(f, n),
        (Ty::Map(k, t), Yaml::Map(m)) => {
            let mut out = vec![];
            for (a, b) in m {
                out.push((fit(k, a)?, fit(t, b)?));
            }
            Ok(Dv::Map(out))
        }
        (Ty::Enum(vs), Yaml::Str(s)) => match vs.iter().position(|x| x.0 == s) {
            Some(i) if vs[i].1 == Variant::Unit => Ok(Dv::Variant(i, Box::new(Dv::Unit))),
            _ => Err(None),
        },
        (Ty::Enum(vs), Yaml::Map(m)) if m.len() == 1 => {
            let (k, v) = m.iter().next().unwrap();
            let k = name(k)?;
            let i = vs.iter().position(|x| x.0 == k).ok_or(None)?;
            let d = match (&vs[i].1, v.yaml()) {
                (Variant::Unit, Yaml::Null) => Dv::Unit,
                (Variant::Newtype(t), _) => fit(t, v)?,
                (Variant::Tuple(t), Yaml::Seq(s)) => tuple(&mut t.iter(), s)?,
                (Variant::Struct(f), Yaml::Map(_)) => fields(f, v)?,
                _ => return Err(Some(v.pos())),
            };
            Ok(Dv::Variant(i, Box::new(d)))
        }
        _ => bad,
    }
}

fn agree(from: &str, want: &Result<Dv, Fail>, got: Result<Dv, SerdeError>) -> Result<(), String> {
    match (want, got) {
        (Ok(a), Ok(b)) if *a == b => Ok(()),
        (Err(None), Err(e)) | (Err(Some(_)), Err(e)) if e.msg.is_empty() || e.to_string().is_empty() => Err(format!("{from}: the error has no message")),
        (Err(None), Err(_)) => Ok(()),
        (Err(Some(p)), Err(e)) if e.pos == *p => Ok(()),
        (Err(Some(p)), Err(e)) => Err(format!("{from}: the node at {p} does not fit, but the error has position {}: {e}", e.pos)),
        (Ok(a), got) => Err(format!("{from}: {got:?}\n expected {a:?}")),
        (Err(p), Ok(b)) => Err(format!("{from}: accepted as {b:?}, the node at {p:?} does not fit")),
    }
}

// ------------------------------------------------------------------ mutation

fn count(v: &Val) -> usize {
    v.size()
}

fn leaf(src: &mut Src) -> Val {
    let s = Val::s;
    match src.below(14) {
        0 => Val::Null,
        1 => Val::Bool(src.chance(1, 2)),
        2 => Val::Int(src.below(10) as i128),
        3 => Val::Int(*src.pick(&[-1, -128, -129, 127, 128, 255, 256, 32767, 32768, -32769, 65535, 65536])),
        4 => {
            let b = *src.pick(&[31u32, 32, 63, 64]);
            Val::Int((1i128 << b) - src.below(2) as i128)
        }
        5 => {
            let b = *src.pick(&[31u32, 63]);
            Val::Int(-(1i128 << b) - src.below(2) as i128)
        }
        6 => match src.below(4) {
            0 => Val::Big("340282366920938463463374607431768211455".into()),
            1 => Val::Big("340282366920938463463374607431768211456".into()),
            2 => Val::Big("-170141183460469231731687303715884105729".into()),
            _ => Val::Int(i128::MAX),
        },
        7 => Val::Float(*src.pick(&[1.0, 0.5, -3.0, 1e300, f64::NAN, f64::INFINITY])),
        8 => s(""),
        9 => s(*src.pick(&["a", "5", "é", "~", "true", "1.5"])),
        10 => s(src.pick(NAMES)),
        11 => Val::Seq(vec![]),
        12 => Val::Map(vec![]),
        _ => Val::Alias("al".into()),
    }
}

fn other(src: &mut Src) -> Val {
    match src.weighted(&[8, 1, 1, 1]) {
        0 => leaf(src),
        1 => Val::Seq((0..src.range(1, 3)).map(|_| leaf(src)).collect()),
        2 => Val::Map(vec![(leaf(src), leaf(src))]),
        _ => {
            let name = *src.pick(NAMES);
            Val::Map(vec![(Val::s(name), leaf(src)), (Val::s("zz"), leaf(src))])
        }
    }
}

/// Change the node with the given number (in document order).
fn mutate(src: &mut Src, v: &mut Val, at: &mut usize) -> bool {
    if *at == 0 {
        let o = other(src);
        match v {
            Val::Seq(x) if src.chance(1, 2) => {
                let i = src.usize(x.len() + 1);
                if i < x.len() && src.chance(1, 2) {
                    x.remove(i);
                } else {
                    x.insert(i, o);
                }
            }
            Val::Map(m) if src.chance(1, 2) => {
                let i = src.usize(m.len() + 1);
                match src.below(3) {
                    0 if i < m.len() => {
                        m.remove(i);
                    }
                    1 if i < m.len() => m[i].0 = if src.chance(1, 2) { Val::s(src.pick(NAMES)) } else { leaf(src) },
                    _ => {
                        let k = if src.chance(3, 4) { Val::s(src.pick(NAMES)) } else { leaf(src) };
                        m.insert(i, (k, o))
                    }
                }
            }
            Val::Int(i) if src.chance(1, 3) => *i = i.saturating_mul(2).saturating_add(src.below(3) as i128 - 1),
            _ => *v = o,
        }
        return true;
    }
    *at -= 1;
    match v {
        Val::Seq(x) => x.iter_mut().any(|v| mutate(src, v, at)),
        Val::Map(m) => m.iter_mut().any(|(k, v)| mutate(src, k, at) || mutate(src, v, at)),
        _ => false,
    }
}

/// A node tree whose positions are all different.
fn place<R: Repr>(v: &Val, next: &mut u64) -> Node<R> {
    *next += 3;
    let pos = *next;
    let y: Yaml<R> = match v {
        Val::Null => Yaml::Null,
        Val::Bool(b) => Yaml::Bool(*b),
        Val::Int(i) if *i >= 0 && i % 7 == 3 => Yaml::Int(format!("0x{i:X}")),
        Val::Int(i) => Yaml::Int(i.to_string()),
        Val::Big(s) => Yaml::Int(s.clone()),
        Val::Float(f) => Yaml::from(*f),
        Val::Str(s) => Yaml::Str(s.clone()),
        Val::Alias(a) => Yaml::Alias(a.clone()),
        Val::Seq(v) => Yaml::Seq(v.iter().map(|v| place(v, next)).collect()),
        Val::Map(m) => m
            .iter()
            .map(|(k, v)| {
                let k = place(k, next);
                (k, place(v, next))
            })
            .collect(),
    };
    Node::new(y, pos, "")
}

fn both(ctx: &mut Ctx, t: &Ty, fits: &Val, v: &Val) -> Result<(), String> {
    let n: NodeRc = place(v, &mut 100);
    let a: NodeArc = place(v, &mut 100);
    let want = fit(t, &n);
    ctx.label(match &want {
        Ok(_) => "fits",
        Err(None) => "missing or unknown",
        Err(Some(_)) => "wrong node",
    });
    if want.is_err() {
        ctx.nontrivial(hash_str(&format!("{t:?}{v:?}")));
    }
    agree("a node", &want, Seed(t).deserialize(n.clone()))?;
    agree("an Arc node", &want, Seed(t).deserialize(a))?;
    // As the second document of a text.
    let mut alias = false;
    super::c11::each(&to_val(&n)?, &mut |v| alias |= matches!(v, Val::Alias(_)));
    let first: NodeRc = place(fits, &mut 0);
    let text = yshim::dump_rc(&[first, n], &[]);
    if alias {
        return match with_root(t, || from_str::<Rooted>(&text)) {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("the text with an undefined alias is accepted: {text:?}")),
        };
    }
    let r = yshim::parse_rc(&text).map_err(|e| format!("dump rejected: {e}\n{text:?}"))?;
    let mut want = Ok(vec![]);
    for n in &r {
        match (fit(t, n), &mut want) {
            (Ok(d), Ok(w)) => w.push(d),
            (Err(e), Ok(_)) => want = Err(e),
            _ => {}
        }
    }
    let got = with_root(t, || from_str::<Rooted>(&text));
    let shown = |e| format!("{e}\n text {text:?}");
    match want {
        Ok(w) => agree("text", &Ok(Dv::List(w)), got.map(|v| Dv::List(v.into_iter().map(|x| x.0).collect()))).map_err(shown),
        Err(e) => agree("text", &Err(e), got.map(|v| Dv::List(v.into_iter().map(|x| x.0).collect()))).map_err(shown),
    }
}

fn near(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 4);
    let t = Ty::deep(src, depth);
    let d = t.value(src);
    let fits = t.model(&d);
    let mut v = fits.clone();
    let k = src.weighted(&[1, 8, 3, 1]);
    for _ in 0..k {
        let mut at = src.usize(count(&v));
        mutate(src, &mut v, &mut at);
    }
    announce(ctx, || format!("{t:?}\n{v:?}"));
    both(ctx, &t, &fits, &v)
}

fn far(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 3);
    let t = Ty::deep(src, depth);
    let o = Ty::deep(src, depth);
    let d = o.value(src);
    let v = if src.chance(1, 4) { leaf(src) } else { o.model(&d) };
    let fits = t.value(src);
    announce(ctx, || format!("{t:?}\n{v:?}"));
    both(ctx, &t, &t.model(&fits), &v)
}

// ------------------------------------------------------------------- derived

#[derive(Deserialize, Debug, PartialEq)]
#[serde(deny_unknown_fields)]
struct Strict {
    id: u8,
    name: Option<String>,
    #[serde(default)]
    list: Vec<i16>,
    kind: Kind,
}

#[derive(Deserialize, Debug, PartialEq)]
struct Lax {
    id: u8,
    name: Option<String>,
    #[serde(default)]
    list: Vec<i16>,
    kind: Kind,
}

#[derive(Deserialize, Debug, PartialEq, Clone)]
enum Kind {
    A,
    B(bool),
    C(u8, char),
    D { x: f32 },
}

fn derived(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // Every field: its text, and what it reads as.
    let id = src.below(400);
    let id_ok = id < 256;
    let (name, name_v): (Option<&str>, Option<&str>) = *src.pick(&[(None, None), (Some("~"), None), (Some("bob"), Some("bob")), (Some("12"), Some("12"))]);
    let (list, list_v): (Option<&str>, Option<Vec<i16>>) = src
        .pick(&[
            (None, Some(vec![])),
            (Some("[]"), Some(vec![])),
            (Some("[1, -2]"), Some(vec![1, -2])),
            (Some("[1, 40000]"), None),
            (Some("[1, x]"), None),
            (Some("~"), None),
            (Some("{}"), None),
        ])
        .clone();
    let (kind, kind_v): (Option<&str>, Option<Kind>) = src
        .pick(&[
            (Some("A"), Some(Kind::A)),
            (Some("{A: ~}"), Some(Kind::A)),
            (Some("{B: true}"), Some(Kind::B(true))),
            (Some("{C: [1, x]}"), Some(Kind::C(1, 'x'))),
            (Some("{D: {x: 2}}"), Some(Kind::D { x: 2.0 })),
            (Some("{D: {x: 2, y: 3}}"), Some(Kind::D { x: 2.0 })),
            (Some("E"), None),
            (Some("B"), None),
            (Some("{A: 1}"), None),
            (Some("{B: 1}"), None),
            (Some("{C: [1]}"), None),
            (Some("{C: {}}"), None),
            (Some("{D: {}}"), None),
            (Some("{D: x}"), None),
            (Some("{A: ~, B: true}"), None),
            (Some("{}"), None),
            (Some("[A]"), None),
            (Some("5"), None),
            (None, None),
        ])
        .clone();
    let extra = *src.pick(&[None, None, Some("extra: 1"), Some("'id ': [x, {y: z}]"), Some("? \"ID\"\n: ~")]);
    let mut lines = vec![format!("id: {id}")];
    lines.extend(name.map(|x| format!("name: {x}")));
    lines.extend(list.map(|x| format!("list: {x}")));
    lines.extend(kind.map(|x| format!("kind: {x}")));
    lines.extend(extra.map(String::from));
    for i in (1..lines.len()).rev() {
        let j = src.usize(i + 1);
        lines.swap(i, j);
    }
    let text = lines.join("\n") + "\n";
    announce(ctx, || text.clone());
    ctx.nontrivial(hash_str(&text));
    let want = if id_ok && list_v.is_some() && kind_v.is_some() {
        Some((id as u8, name_v.map(String::from), list_v.unwrap(), kind_v.unwrap()))
    } else {
        None
    };
    ctx.label_if(want.is_some(), "fits");
    let lax = from_str::<Lax>(&text);
    match (&want, &lax) {
        (None, Err(_)) => {}
        (Some(w), Ok(l)) if l.len() == 1 && (l[0].id, &l[0].name, &l[0].list, &l[0].kind) == (w.0, &w.1, &w.2, &w.3) => {}
        _ => return Err(format!("{lax:?}\n expected {want:?}")),
    }
    let strict = from_str::<Strict>(&text);
    match (want.filter(|_| extra.is_none()), &strict) {
        (None, Err(_)) => Ok(()),
        (Some(w), Ok(l)) if l.len() == 1 && (l[0].id, &l[0].name, &l[0].list, &l[0].kind) == (w.0, &w.1, &w.2, &w.3) => Ok(()),
        (w, _) => Err(format!("unknown fields denied: {strict:?}\n expected {w:?}")),
    }
}

/// Text that does not parse, or that holds something that does not fit.
fn texts(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { anchors: src.chance(1, 4), tags: src.chance(1, 4), ..Cfg::default() };
    let st = style(src);
    let (_, mut text) = super::c02::gen_doc(src, cfg, st);
    for _ in 0..src.range(0, 2) {
        let cs: Vec<char> = text.chars().collect();
        let i = src.usize(cs.len() + 1);
        let mut t: String = cs[..i].iter().collect();
        t.push(*src.pick(&['"', '\'', '[', '}', ':', '*', '&', '%', '\n', ' ', '!']));
        t.extend(&cs[(i + src.usize(3)).min(cs.len())..]);
        text = t;
    }
    announce(ctx, || format!("{text}\n{text:?}"));
    ctx.nontrivial(hash_str(&text));
    let t = Ty::deep(src, 2);
    let parsed = yshim::parse_rc(&text);
    ctx.label_if(parsed.is_err(), "does not parse");
    let got = with_root(&t, || from_str::<Rooted>(&text));
    match parsed {
        Err(e) => match got {
            Ok(_) => Err(format!("accepted, though the parser says {e}")),
            Err(g) if g.msg == e.to_string() => Ok(()),
            Err(g) => Err(format!("the error {g} is not that of the parser: {e}")),
        },
        Ok(v) => {
            let mut want = Ok(vec![]);
            for n in &v {
                match (fit(&t, n), &mut want) {
                    (Ok(d), Ok(w)) => w.push(d),
                    (Err(e), Ok(_)) => want = Err(e),
                    _ => {}
                }
            }
            agree("text", &want.map(Dv::List), got.map(|v| Dv::List(v.into_iter().map(|x| x.0).collect())))
        }
    }
}

pub fn property() -> Property {
    let _ = Anchors::<yaml_peg::repr::RcRepr>::new();
    Property {
        id: "C12",
        rule: "a type and a document that does not fit it, distinct by both",
        assumptions: &[
            "the acceptance table of types and kinds is the documented lenient one (see DESIGN.md)",
            "errors about something that is missing or unknown carry no position",
        ],
        targets: vec![
            Target { name: "near", f: near, quick: 450_000, thorough: 5_000_000, guided: 0 },
            Target { name: "far", f: far, quick: 180_000, thorough: 2_000_000, guided: 0 },
            Target { name: "derived", f: derived, quick: 60_000, thorough: 300_000, guided: 0 },
            Target { name: "texts", f: texts, quick: 120_000, thorough: 1_000_000, guided: 0 },
        ],
    }
}

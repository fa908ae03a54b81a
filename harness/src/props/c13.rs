//! The helper types of the serde module.
use super::common::*;
use crate::{engine::*, model::*};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{collections::BTreeMap, fmt::Debug};
use yaml_peg::{serde::*, NodeArc, NodeRc};

/// What a type reads from data, and the data it writes.
trait Reads: Sized + Debug + PartialEq + Serialize + DeserializeOwned {
    fn read(v: &Val) -> Option<Self>;
    fn write(&self) -> Val;
}

fn whole(v: &Val) -> Option<i128> {
    match v {
        Val::Int(i) if (i64::MIN as i128..=u64::MAX as i128).contains(i) => Some(*i),
        _ => None,
    }
}

impl Reads for i64 {
    fn read(v: &Val) -> Option<Self> {
        whole(v).and_then(|i| i.try_into().ok())
    }
    fn write(&self) -> Val {
        Val::Int(*self as i128)
    }
}
impl Reads for u8 {
    fn read(v: &Val) -> Option<Self> {
        whole(v).and_then(|i| i.try_into().ok())
    }
    fn write(&self) -> Val {
        Val::Int(*self as i128)
    }
}
impl Reads for f64 {
    fn read(v: &Val) -> Option<Self> {
        match v {
            Val::Float(f) => Some(*f),
            v => whole(v).map(|i| i as f64),
        }
    }
    fn write(&self) -> Val {
        Val::Float(*self)
    }
}
impl Reads for String {
    fn read(v: &Val) -> Option<Self> {
        match v {
            Val::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    fn write(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl<T: Reads> Reads for Vec<T> {
    fn read(v: &Val) -> Option<Self> {
        match v {
            Val::Seq(v) => v.iter().map(T::read).collect(),
            _ => None,
        }
    }
    fn write(&self) -> Val {
        Val::Seq(self.iter().map(T::write).collect())
    }
}
impl<T: Reads> Reads for BTreeMap<String, T> {
    fn read(v: &Val) -> Option<Self> {
        match v {
            Val::Map(m) => m.iter().map(|(k, v)| Some((String::read(k)?, T::read(v)?))).collect(),
            _ => None,
        }
    }
    fn write(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (Val::s(k), v.write())).collect())
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Default, Clone)]
struct Img {
    src: String,
    w: Option<i64>,
}
impl Reads for Img {
    fn read(v: &Val) -> Option<Self> {
        match v {
            Val::Map(m) => {
                let get = |k: &str| m.iter().find(|(x, _)| *x == Val::s(k)).map(|x| &x.1);
                if m.iter().any(|(k, _)| !matches!(k, Val::Str(_) | Val::Int(0..=255))) {
                    return None;
                }
                let w = match get("w") {
                    None | Some(Val::Null) => None,
                    Some(v) => Some(i64::read(v)?),
                };
                Some(Img { src: String::read(get("src")?)?, w })
            }
            Val::Seq(v) if v.len() == 2 => Some(Img {
                src: String::read(&v[0])?,
                w: if v[1] == Val::Null { None } else { Some(i64::read(&v[1])?) },
            }),
            _ => None,
        }
    }
    fn write(&self) -> Val {
        Val::Map(vec![(Val::s("src"), Val::s(&self.src)), (Val::s("w"), self.w.map_or(Val::Null, |w| w.write()))])
    }
}
impl<T: Reads> Reads for InlineList<T> {
    fn read(v: &Val) -> Option<Self> {
        Vec::read(v).map(InlineList::List).or_else(|| T::read(v).map(InlineList::Inline))
    }
    fn write(&self) -> Val {
        match self {
            InlineList::List(v) => v.write(),
            InlineList::Inline(x) => x.write(),
        }
    }
}
impl<T: Reads> Reads for Optional<T> {
    fn read(v: &Val) -> Option<Self> {
        match v {
            Val::Bool(b) => Some(Optional::Bool(*b)),
            v => T::read(v).map(Optional::Some),
        }
    }
    fn write(&self) -> Val {
        match self {
            Optional::Bool(b) => Val::Bool(*b),
            Optional::Some(x) => x.write(),
        }
    }
}
impl Reads for Stringify {
    fn read(v: &Val) -> Option<Self> {
        match v {
            Val::Bool(b) => Some(Stringify::Bool(*b)),
            Val::Int(i) if i32::try_from(*i).is_ok() => Some(Stringify::Int(*i as i32)),
            // Beyond its integers, the next thing it can hold.
            Val::Int(_) => whole(v).map(|i| Stringify::Float(i as f32)),
            Val::Float(f) => Some(Stringify::Float(*f as f32)),
            Val::Str(s) => Some(Stringify::Str(s.clone())),
            _ => None,
        }
    }
    fn write(&self) -> Val {
        match self {
            Stringify::Bool(b) => Val::Bool(*b),
            Stringify::Int(i) => Val::Int(*i as i128),
            Stringify::Float(f) if f.is_nan() => Val::Float(f64::NAN),
            Stringify::Float(f) => Val::Float(f.to_string().parse().unwrap()),
            Stringify::Str(s) => Val::s(s),
        }
    }
}

/// Serde cannot hold back integers of more than 64 bits while it looks for the
/// kind of the value.
fn held<T: Reads>(v: &Val) -> Option<T> {
    let mut big = false;
    super::c11::each(v, &mut |v| big |= matches!(v, Val::Int(_) | Val::Big(_)) && whole(v).is_none());
    if big {
        None
    } else {
        T::read(v)
    }
}

fn same<T: PartialEq>(a: &T, b: &T, m: &dyn Fn(&T) -> Val) -> bool {
    a == b || m(a).same(&m(b))
}

fn read_all<T: Reads>(ctx: &mut Ctx, v: &Val) -> Result<Option<T>, String> {
    let name = std::any::type_name::<T>();
    let want: Option<T> = held(v);
    ctx.label_if(want.is_some(), "accepted");
    let n: NodeRc = build_node(v);
    let a: NodeArc = build_node(v);
    let text = yshim::dump_rc(&[n.clone()], &[]);
    let got = [
        ("node", T::deserialize(n)),
        ("Arc node", T::deserialize(a)),
        ("text", from_str::<T>(&text).map(|mut v| v.remove(0))),
    ];
    for (from, g) in got {
        match (&want, g) {
            (None, Err(_)) => {}
            (Some(w), Ok(g)) if same(w, &g, &T::write) => {
                if format!("{w:?}") != format!("{g:?}") {
                    return Err(format!("{name} from {from}: {g:?}, expected {w:?}"));
                }
                // And back.
                let n: NodeRc = to_node(&g).map_err(|e| format!("to_node: {e}"))?;
                if !to_val(&n)?.same(&w.write()) {
                    return Err(format!("{name}: {g:?} becomes {n:?}"));
                }
                let s = to_string(&g).map_err(|e| format!("to_string: {e}"))?;
                expect_rc(&s, &[w.write()])?;
            }
            (w, g) => return Err(format!("{name} from {from}: {g:?}, expected {w:?}\n text {text:?}")),
        }
    }
    Ok(want)
}

fn leaf(src: &mut Src) -> Val {
    match src.weighted(&[1, 3, 4, 2, 3]) {
        0 => Val::Null,
        1 => Val::Bool(src.chance(1, 2)),
        2 => match src.below(4) {
            0 => Val::Int(src.below(300) as i128 - 20),
            1 => {
                let b = *src.pick(&[31u32, 32, 63, 64, 24, 8]);
                (if src.chance(1, 2) { Val::Int } else { |i: i128| Val::Int(-i) })((1i128 << b) + src.below(3) as i128 - 1)
            }
            2 => Val::Int(src.u64() as i64 as i128),
            _ => Val::Int(src.u64() as i32 as i128),
        },
        3 => match src.below(3) {
            0 => Val::Float(*src.pick(&[0.0, 1.0, -1.5, 0.1, 1e10, 1e300, f64::NAN, f64::INFINITY, 16777217.0, 1e-50])),
            1 => Val::Float(src.below(2000) as f64 / 8.0 - 100.0),
            _ => Val::Float(f64::from_bits(src.u64())),
        },
        _ => Val::Str(super::c10::string(src)),
    }
}

fn any(src: &mut Src, depth: usize) -> Val {
    match if depth == 0 { 0 } else { src.weighted(&[6, 5, 2, 2]) } {
        0 => leaf(src),
        1 => {
            // Mostly items of one kind.
            let (n, depth) = src.wide(4, depth - 1);
            let first = any(src, depth);
            let mut v = vec![];
            for i in 0..n {
                v.push(if i == 0 || src.chance(1, 8) {
                    first.clone()
                } else {
                    let mut x = any(src, depth);
                    for _ in 0..3 {
                        if x.kind() == first.kind() {
                            break;
                        }
                        x = any(src, depth);
                    }
                    x
                });
            }
            Val::Seq(v)
        }
        2 => {
            let mut m: Vec<(Val, Val)> = vec![];
            let n = src.len(3);
            for _ in 0..src.big(n, 100) {
                let k = Val::Str(super::c10::string(src));
                if !m.iter().any(|(x, _)| x.same(&k)) {
                    let v = leaf(src);
                    m.push((k, v));
                }
            }
            Val::Map(m)
        }
        _ => {
            let mut m = vec![(Val::s("src"), leaf(src))];
            if src.chance(1, 2) {
                let w = leaf(src);
                m.push((Val::s("w"), w));
            }
            if src.chance(1, 4) {
                m.push((Val::s("more"), leaf(src)));
            }
            Val::Map(m)
        }
    }
}

fn stringify(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let v = if src.chance(7, 8) { leaf(src) } else { any(src, 2) };
    announce(ctx, || format!("{v:?}"));
    ctx.nontrivial(hash_str(&format!("{v:?}")));
    ctx.label(v.kind());
    if let Some(s) = read_all::<Stringify>(ctx, &v)? {
        let want = match &s {
            Stringify::Bool(b) => b.to_string(),
            Stringify::Int(i) => i.to_string(),
            Stringify::Float(f) => f.to_string(),
            Stringify::Str(s) => s.clone(),
        };
        if s.to_string() != want {
            return Err(format!("{s:?} is displayed as {:?}", s.to_string()));
        }
        match &v {
            Val::Str(x) if *x != want => return Err(format!("{x:?} is displayed as {want:?}")),
            Val::Bool(b) if b.to_string() != want => return Err(format!("{b} is displayed as {want:?}")),
            Val::Int(i) if i32::try_from(*i).is_ok() && i.to_string() != want => return Err(format!("{i} is displayed as {want:?}")),
            _ => {}
        }
    }
    if Stringify::default() != Stringify::Str(String::new()) {
        return Err("the default is not the empty string".into());
    }
    Ok(())
}

fn list<T: Reads + Clone>(ctx: &mut Ctx, v: &Val) -> Result<(), String> {
    let Some(l) = read_all::<InlineList<T>>(ctx, v)? else { return Ok(()) };
    let want: Vec<T> = match &l {
        InlineList::List(v) => v.clone(),
        InlineList::Inline(x) => vec![x.clone()],
    };
    ctx.label(if matches!(l, InlineList::List(_)) { "list" } else { "inline" });
    let ok = l.iter().zip(&want).all(|(a, b)| same(a, b, &T::write))
        && l.iter().count() == want.len()
        && l.len() == want.len()
        && l.is_empty() == want.is_empty()
        && l.is_single() == (want.len() == 1);
    let shown = format!("{l:?}");
    let items: Vec<T> = l.into_iter().collect();
    if !ok || items.len() != want.len() || !items.iter().zip(&want).all(|(a, b)| same(a, b, &T::write)) {
        return Err(format!("{shown}: iteration gives {items:?}"));
    }
    if InlineList::<T>::default().iter().next().is_some() || !InlineList::<T>::default().is_empty() || !matches!(InlineList::<T>::default(), InlineList::List(_)) {
        return Err("the default is not the empty list".into());
    }
    Ok(())
}

fn inline_list(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = src.below(9);
    let depth = src.range(0, 3);
    let v = any(src, depth);
    announce(ctx, || format!("{k}: {v:?}"));
    ctx.nontrivial(hash_str(&format!("{k}{v:?}")));
    match k {
        0 => list::<i64>(ctx, &v),
        1 => list::<String>(ctx, &v),
        2 => list::<f64>(ctx, &v),
        3 => list::<Img>(ctx, &v),
        4 => list::<Vec<i64>>(ctx, &v),
        5 => list::<BTreeMap<String, f64>>(ctx, &v),
        6 => list::<u8>(ctx, &v),
        7 => read_all::<InlineList<InlineList<i64>>>(ctx, &v).map(|_| ()),
        _ => read_all::<InlineList<Stringify>>(ctx, &v).map(|_| ()),
    }
}

fn opt<T: Reads + Clone + Default>(ctx: &mut Ctx, v: &Val, alt: T) -> Result<(), String> {
    let Some(o) = read_all::<Optional<T>>(ctx, v)? else { return Ok(()) };
    let with = |d: &T| match &o {
        Optional::Bool(false) => None,
        Optional::Bool(true) => Some(d.clone()),
        Optional::Some(x) => Some(x.clone()),
    };
    ctx.label(match &o {
        Optional::Bool(false) => "absent",
        Optional::Bool(true) => "default",
        _ => "some",
    });
    let eq = |a: &Option<T>, b: &Option<T>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b, &T::write),
        _ => false,
    };
    let (mut a, mut b) = (vec![], vec![]);
    o.ok(|x| a.push(x.clone()));
    o.ok_instead(|x| b.push(x.clone()), &alt);
    let c = o.ok_or(|x| Some(x.clone()), || None);
    let d = o.ok_or_instead(|x| Some(x.clone()), &alt, || None);
    let (def, inst) = (with(&T::default()), with(&alt));
    if a.len() > 1 || b.len() > 1 || !eq(&a.pop(), &def) || !eq(&b.pop(), &inst) || !eq(&c, &def) || !eq(&d, &inst) {
        return Err(format!("the accessors of {o:?} do not agree with it"));
    }
    if !matches!(Optional::<T>::default(), Optional::Bool(true)) {
        return Err("the default is not the default value".into());
    }
    Ok(())
}

fn optional(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = src.below(6);
    let depth = src.range(0, 2);
    let v = if src.chance(1, 5) { Val::Bool(src.chance(1, 2)) } else { any(src, depth) };
    announce(ctx, || format!("{k}: {v:?}"));
    ctx.nontrivial(hash_str(&format!("{k}{v:?}")));
    match k {
        0 => opt::<i64>(ctx, &v, -7),
        1 => opt::<String>(ctx, &v, "alt".into()),
        2 => opt::<f64>(ctx, &v, 0.5),
        3 => opt::<Img>(ctx, &v, Img { src: "alt".into(), w: Some(1) }),
        4 => opt::<Vec<String>>(ctx, &v, vec!["alt".into()]),
        _ => read_all::<Optional<InlineList<i64>>>(ctx, &v).map(|_| ()),
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Content {
    #[serde(default)]
    width: Stringify,
    #[serde(default)]
    img: InlineList<Img>,
    #[serde(default)]
    shadow: Optional<Img>,
}

/// As fields of a struct, where a missing field is the default.
fn fields(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut m = vec![];
    let mut part = |src: &mut Src, k: &str, v: Val| {
        if src.chance(3, 4) {
            m.push((Val::s(k), v.clone()));
            Some(v)
        } else {
            None
        }
    };
    let img = |src: &mut Src| {
        let s = super::c10::string(src);
        let w = if src.chance(1, 2) { Val::Null } else { Val::Int(src.below(9) as i128) };
        Val::Map(vec![(Val::s("src"), Val::s(&s)), (Val::s("w"), w)])
    };
    let a = leaf(src);
    let b = match src.below(3) {
        0 => img(src),
        1 => Val::Seq((0..src.len(3)).map(|_| img(src)).collect()),
        _ => any(src, 1),
    };
    let c = match src.below(3) {
        0 => Val::Bool(src.chance(1, 2)),
        1 => img(src),
        _ => any(src, 1),
    };
    let a = part(src, "width", a);
    let b = part(src, "img", b);
    let c = part(src, "shadow", c);
    let v = Val::Map(m);
    announce(ctx, || format!("{v:?}"));
    ctx.nontrivial(hash_str(&format!("{v:?}")));
    fn get<T: Reads + Default>(v: Option<Val>) -> Option<T> {
        match v {
            None => Some(T::default()),
            Some(v) => held(&v),
        }
    }
    let want = (|| Some(Content { width: get(a)?, img: get(b)?, shadow: get(c)? }))();
    ctx.label_if(want.is_some(), "accepted");
    let n: NodeRc = build_node(&v);
    let got = Content::deserialize(n.clone());
    match (&want, &got) {
        (None, Err(_)) => Ok(()),
        (Some(w), Ok(g)) if format!("{w:?}") == format!("{g:?}") => Ok(()),
        _ => Err(format!("{got:?}\n expected {want:?}")),
    }
}

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "a value and a helper type, distinct by both",
        assumptions: &["integers of more than 64 bits are rejected by the helpers (serde cannot buffer them)", "integers beyond the range of the string helper become floats of its range"],
        targets: vec![
            Target { name: "stringify", f: stringify, quick: 180_000, thorough: 2_000_000, guided: 0 },
            Target { name: "inline_list", f: inline_list, quick: 300_000, thorough: 3_000_000, guided: 0 },
            Target { name: "optional", f: optional, quick: 180_000, thorough: 2_000_000, guided: 0 },
            Target { name: "fields", f: fields, quick: 120_000, thorough: 1_000_000, guided: 0 },
        ],
    }
}

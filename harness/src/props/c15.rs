//! Reading, building and changing nodes.
use super::common::*;
use super::c14::{any_node, tree};
use crate::{doc::*, engine::*, model::*};
use std::{collections::BTreeMap, rc::Rc};
use yaml_peg::{node, parser::Anchors, repr::RcRepr, Ind, Map, NodeArc, NodeRc, Seq, Yaml};

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, n: &NodeRc, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} of {n:?} at {} is {got:?}, expected {want:?}", n.pos()))
    }
}

fn missing<T>(r: Result<T, String>) -> bool {
    r.is_err()
}

/// The text of a scalar as `as_value` gives it, without looking at the node.
fn text_ok(v: &Val, s: &str) -> bool {
    match v {
        Val::Null => s.is_empty(),
        Val::Bool(b) => s == b.to_string(),
        Val::Str(x) => s == x,
        Val::Big(x) => s == x,
        Val::Int(i) => int_text(s) == Some(*i),
        Val::Float(f) => s.parse::<f64>().is_ok_and(|g| g == *f || g.is_nan() && f.is_nan()),
        _ => false,
    }
}

fn same_float(a: Result<f64, u64>, b: Result<f64, u64>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.to_bits() == b.to_bits() || a == 0. && b == 0. || a.is_nan() && b.is_nan(),
        (a, b) => a.is_err() && a.err() == b.err(),
    }
}

/// Every accessor of a node and of the nodes in it.
fn all(src: &mut Src, n: &NodeRc, anchors: &Anchors<RcRepr>) -> Result<(), String> {
    let v = to_val(n)?;
    let pos = n.pos();
    let int = match &v {
        Val::Int(i) => i64::try_from(*i).map_err(|_| pos),
        _ => Err(pos),
    };
    eq("as_int", n, n.as_int(), int)?;
    let float = match &v {
        Val::Float(f) => Ok(*f),
        _ => Err(pos),
    };
    if !same_float(n.as_float(), float) {
        return Err(format!("as_float of {n:?} is {:?}", n.as_float()));
    }
    let number = float.or(int.map(|i| i as f64));
    if !same_float(n.as_number(), number) {
        return Err(format!("as_number of {n:?} is {:?}", n.as_number()));
    }
    eq("as_bool", n, n.as_bool(), if let Val::Bool(b) = v { Ok(b) } else { Err(pos) })?;
    let s = match &v {
        Val::Str(s) => Ok(s.as_str()),
        Val::Null => Ok(""),
        _ => Err(pos),
    };
    eq("as_str", n, n.as_str(), s)?;
    match (n.as_value(), &v) {
        (Err(p), Val::Seq(_) | Val::Map(_) | Val::Alias(_)) if p == pos => {}
        (Ok(s), v) if text_ok(v, s) => {}
        (r, _) => return Err(format!("as_value of {n:?} is {r:?}")),
    }
    eq("is_null", n, n.is_null(), v == Val::Null)?;
    match (n.as_anchor(anchors), &v) {
        (Ok(m), Val::Alias(a)) => {
            let want = anchors.get(a);
            if !want.is_some_and(|w| Rc::ptr_eq(w.rc_ref(), m.rc_ref())) {
                return Err(format!("as_anchor of {n:?} is {m:?}, expected {want:?}"));
            }
        }
        (Err(p), Val::Alias(a)) if p == pos && !anchors.contains_key(a) => {}
        (Ok(m), v) if !matches!(v, Val::Alias(_)) && std::ptr::eq(m, n) => {}
        (r, _) => return Err(format!("as_anchor of {n:?} is {r:?}")),
    }
    if n.tag() == "" && v.kind() != "alias" {
        return Err(format!("{n:?} has no tag"));
    }
    match (n.as_seq(), &v) {
        (Ok(s), Val::Seq(x)) if s.len() == x.len() => {
            for (i, c) in s.iter().enumerate() {
                let via = n.get_ind(Ind(i)).map_err(|p| format!("get_ind({i}) of {n:?} fails at {p}"))?;
                if !Rc::ptr_eq(via.rc_ref(), c.rc_ref()) || via.pos() != c.pos() || !std::ptr::eq(via, &n[Ind(i)]) {
                    return Err(format!("item {i} of {n:?} is {via:?}"));
                }
                all(src, via, anchors)?;
            }
            let i = s.len() + src.usize(3);
            eq("get_ind behind the end", n, n.get_ind(Ind(i)), Err(pos))?;
            if !missing(catch(|| n[Ind(i)].pos())) {
                return Err(format!("[Ind({i})] of {n:?} exists"));
            }
        }
        (Err(p), x) if p == pos && !matches!(x, Val::Seq(_)) => {
            eq("get_ind", n, n.get_ind(Ind(0)), Err(pos))?;
        }
        (r, _) => return Err(format!("as_seq of {n:?} is {r:?}")),
    }
    match (n.as_map(), &v) {
        (Ok(m), Val::Map(x)) if m.len() == x.len() => {
            for ((k, c), (mk, _)) in m.iter().zip(x) {
                // By the key, and by any node equal to it.
                let other: NodeRc = any_node(src, mk);
                for key in [k.clone(), other] {
                    let via = n.get(key.clone()).map_err(|p| format!("get({key:?}) of {n:?} fails at {p}"))?;
                    if !Rc::ptr_eq(via.rc_ref(), c.rc_ref()) || via.pos() != c.pos() || !std::ptr::eq(via, &n[key.clone()]) {
                        return Err(format!("{key:?} of {n:?} is {via:?}"));
                    }
                    let r = n.get_default(key, 7, |m| if std::ptr::eq(m, via) { Ok(9) } else { Ok(8) });
                    eq("get_default", n, r, Ok(9))?;
                }
                if let Val::Str(s) = mk {
                    if !n.get(s.as_str()).is_ok_and(|m| m == c) || !n.get(s.clone()).is_ok_and(|m| m == c) {
                        return Err(format!("{s:?} of {n:?} is not found"));
                    }
                }
                // An error of the reading function is passed on.
                let r: Result<i64, u64> = n.get_default(k.clone(), 1, NodeRc::as_int);
                eq("get_default with as_int", n, r, c.as_int())?;
                all(src, k, anchors)?;
                all(src, c, anchors)?;
            }
            let d = src.below(2) as usize;
            let absent = tree(src, d);
            if !x.iter().any(|(k, _)| k.same(&absent)) {
                let key: NodeRc = any_node(src, &absent);
                eq("get of a missing key", n, n.get(key.clone()), Err(pos))?;
                let r = n.get_default(key.clone(), -3, NodeRc::as_int);
                eq("get_default of a missing key", n, r, Ok(-3))?;
                if !missing(catch(|| n[key].pos())) {
                    return Err(format!("[{absent:?}] of {n:?} exists"));
                }
            }
        }
        (Err(p), x) if p == pos && !matches!(x, Val::Map(_)) => {
            eq("get", n, n.get("a"), Err(pos))?;
            eq("get_default", n, n.get_default("a", 1, NodeRc::as_int), Err(pos))?;
            if !missing(catch(|| n["a"].pos())) {
                return Err(format!("[\"a\"] of {n:?} exists"));
            }
        }
        (r, _) => return Err(format!("as_map of {n:?} is {r:?}")),
    }
    Ok(())
}

fn accessors(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 3);
    let v = tree(src, depth);
    let n: NodeRc = any_node(src, &v);
    let mut anchors = Anchors::new();
    if src.chance(1, 2) {
        anchors.insert("a".to_string(), NodeRc::from("target"));
    }
    announce(ctx, || format!("{n:#?}"));
    ctx.nontrivial(hash_str(&format!("{n:?}")));
    ctx.label(v.kind());
    all(src, &n, &anchors)
}

/// The same on what the parser gives.
fn parsed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { anchors: src.chance(1, 3), tags: src.chance(1, 3), block_scalars: src.chance(1, 3), multiline: src.chance(1, 3), depth: 3, ..Cfg::default() };
    let st = style(src);
    let (_, text) = super::c02::gen_doc(src, cfg, st);
    announce(ctx, || format!("{text}\n{text:?}"));
    ctx.nontrivial(hash_str(&text));
    let (v, t) = yshim::cyclic_rc(&text).map_err(|e| format!("rejected: {e}"))?;
    for (n, t) in v.iter().zip(&t) {
        all(src, n, t)?;
    }
    let v = yshim::parse_rc(&text).map_err(|e| format!("rejected: {e}"))?;
    let none = Anchors::new();
    for n in &v {
        all(src, n, &none)?;
    }
    Ok(())
}

/// Walks along a path; the error is that of the node where it ends.
fn paths(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(1, 4);
    let v = tree(src, depth);
    let n: NodeRc = any_node(src, &v);
    let mut at: &NodeRc = &n;
    let mut log = vec![];
    for _ in 0..src.range(1, 6) {
        let good = src.chance(4, 5);
        match at.yaml() {
            Yaml::Seq(s) if good && !s.is_empty() => {
                let i = src.usize(s.len());
                log.push(format!("[{i}]"));
                at = at.get_ind(Ind(i)).map_err(|p| format!("item {i} fails at {p}"))?;
                if !std::ptr::eq(at, &s[i]) {
                    return Err(format!("item {i} is {at:?}"));
                }
            }
            Yaml::Map(m) if good && !m.is_empty() => {
                let i = src.usize(m.len());
                let (k, w) = m.iter().nth(i).unwrap();
                log.push(format!("{k:?}"));
                at = at.get(k.clone()).map_err(|p| format!("key {k:?} fails at {p}"))?;
                if !std::ptr::eq(at, w) {
                    return Err(format!("key {k:?} is {at:?}"));
                }
            }
            y => {
                let missing: NodeRc = "no such key".into();
                let beyond = match y {
                    Yaml::Seq(s) => s.len() + src.below(3) as usize,
                    _ => src.usize(10),
                };
                let (a, b) = (at.get(missing).map(|_| ()), at.get_ind(Ind(beyond)).map(|_| ()));
                if a != Err(at.pos()) || b != Err(at.pos()) {
                    return Err(format!("missing entry of {y:?} at {}: {a:?} {b:?}", at.pos()));
                }
                break;
            }
        }
    }
    announce(ctx, || format!("{n:?}\n{log:?}"));
    if log.len() > 1 {
        ctx.nontrivial(hash_str(&format!("{n:?}{log:?}")));
    }
    Ok(())
}

/// Rust values as nodes.
fn conversions(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = src.below(18);
    let x = src.u64() >> src.below(64);
    announce(ctx, || format!("conversion {k} of {x}"));
    ctx.nontrivial(mix(k, x));
    macro_rules! ints {
        ($($t:ty)+) => {{$({
            let i = x as $t;
            for n in [NodeRc::from(i), node!(i), NodeRc::new(i, 0, "")] {
                if to_val(&n)? != (i128::try_from(i).map(Val::Int).unwrap_or_else(|_| Val::Big(i.to_string()))) || n.as_int() != i64::try_from(i).map_err(|_| 0u64) {
                    return Err(format!("{i} of type {} becomes {n:?}", stringify!($t)));
                }
            }
            let i = i.wrapping_neg();
            if to_val(&node!(i))? != (i128::try_from(i).map(Val::Int).unwrap_or_else(|_| Val::Big(i.to_string()))) {
                return Err(format!("{i} of type {} becomes {:?}", stringify!($t), node!(i)));
            }
        })+}};
    }
    let s = super::c10::string(src);
    let want = |n: NodeRc, v: Val| -> Result<(), String> {
        let g = to_val(&n)?;
        if g.same(&v) && n.pos() == 0 && n.tag() == default_tag(&v) {
            Ok(())
        } else {
            Err(format!("{v:?} becomes {n:?} with position {} and tag {:?}", n.pos(), n.tag()))
        }
    };
    let st = |s: &str| Val::s(s);
    match k {
        0 => ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128 u128),
        1 => {
            let i = ((x as u128) << 64) | src.u64() as u128;
            want(node!(i), i128::try_from(i).map(Val::Int).unwrap_or_else(|_| Val::Big(i.to_string())))?;
            want(node!(i as i128), Val::Int(i as i128))?;
        }
        2 => {
            let f = f64::from_bits(x);
            want(node!(f), Val::Float(f))?;
            if !same_float(node!(f).as_float(), Ok(f)) || !same_float(node!(f).as_number(), Ok(f)) {
                return Err(format!("{f:?} becomes {:?}", node!(f)));
            }
        }
        3 => {
            let f = f32::from_bits(x as u32);
            let n: NodeRc = node!(f);
            let g = n.as_float().map_err(|_| format!("{f:?} becomes {n:?}"))?;
            if (g as f32).to_bits() != f.to_bits() && !f.is_nan() {
                return Err(format!("{f:?} becomes {n:?}"));
            }
        }
        4 => {
            want(node!(x & 1 == 1), Val::Bool(x & 1 == 1))?;
            want(node!(()), Val::Null)?;
        }
        5 => {
            want(node!(s.as_str()), st(&s))?;
            want(node!(&s), st(&s))?;
            want(node!(s.clone()), st(&s))?;
            let c = char::from_u32(x as u32 & 0xffff).unwrap_or('x');
            want(node!(c), st(&c.to_string()))?;
        }
        6 => want(node!(*s.clone()), Val::Alias(s.clone()))?,
        7 => want(node!([x as i64, s.as_str(), ()]), Val::Seq(vec![Val::Int(x as i64 as i128), st(&s), Val::Null]))?,
        8 => {
            let n = src.big(x as usize % 5, 400);
            want(node!([s.as_str(); n]), Val::Seq(vec![st(&s); n]))?;
        }
        9 => want(
            node!({"a" => x, s.clone() + "b" => node!([true]), 1 => ()}),
            Val::Map(vec![(st("a"), Val::Int(x as i128)), (Val::Str(s.clone() + "b"), Val::Seq(vec![Val::Bool(true)])), (Val::Int(1), Val::Null)]),
        )?,
        10 => {
            let n = src.big(x as usize % 4, 700) as u64;
            let v: Seq<RcRepr> = (0..n).map(NodeRc::from).collect();
            let w = Val::Seq((0..n).map(|i| Val::Int(i as i128)).collect());
            want(NodeRc::from(v.clone()), w.clone())?;
            want(v.into_iter().collect(), w)?;
        }
        11 => {
            let n = src.big(x as usize % 5, 300) as u64;
            let d = 3 + n / 2;
            let pairs: Vec<(u64, String)> = (0..n).map(|i| (i % d, format!("{s}{i}"))).collect();
            // A repeated key keeps the later value, at its later place.
            let mut m: Vec<(Val, Val)> = vec![];
            for (k, v) in &pairs {
                m.retain(|(x, _)| *x != Val::Int(*k as i128));
                m.push((Val::Int(*k as i128), st(v)));
            }
            let w = Val::Map(m);
            let it = || pairs.iter().map(|(k, v)| (NodeRc::from(*k), NodeRc::from(v)));
            want(it().collect(), w.clone())?;
            let m: Map<RcRepr> = it().collect();
            want(NodeRc::from(m), w.clone())?;
            want(NodeRc::from(it().collect::<Yaml<RcRepr>>()), w)?;
        }
        12 => {
            let n: NodeArc = node!(arc [s.as_str(), x]);
            if to_val(&n)? != Val::Seq(vec![st(&s), Val::Int(x as i128)]) {
                return Err(format!("{n:?}"));
            }
            let n: NodeArc = node!(arc {x => s.as_str()});
            if to_val(&n)? != Val::Map(vec![(Val::Int(x as i128), st(&s))]) {
                return Err(format!("{n:?}"));
            }
        }
        13 => {
            let n = NodeRc::new(s.as_str(), x, "some-tag");
            if n.pos() != x || n.tag() != "some-tag" || n.as_str() != Ok(s.as_str()) || n.as_int() != Err(x) {
                return Err(format!("{n:?} {} {}", n.pos(), n.tag()));
            }
            let m = NodeRc::new_repr(n.clone_yaml(), x ^ 1, String::from("t2"));
            if m.pos() != x ^ 1 || m.tag() != "t2" || m != n || !Rc::ptr_eq(m.rc_ref(), n.rc_ref()) {
                return Err(format!("{m:?} {} {}", m.pos(), m.tag()));
            }
        }
        14 => {
            // Any kind, and its tag.
            let d = src.range(0, 2);
            let v = tree(src, d);
            want(build_node(&v), v)?;
        }
        15 => want(node!([]), Val::Seq(vec![]))?,
        16 => want(node!({ () => () }), Val::Map(vec![(Val::Null, Val::Null)]))?,
        _ => want(node!(rc [[s.as_str()].into_iter().map(NodeRc::from).collect::<NodeRc>()]), Val::Seq(vec![Val::Seq(vec![st(&s)])]))?,
    }
    Ok(())
}

/// Changing one node of several that share their parts.
fn changes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut nodes: Vec<NodeRc> = vec![NodeRc::new("start", 5, "t")];
    let mut model: Vec<(Val, u64, String)> = vec![(Val::s("start"), 5, "t".into())];
    let mut log = vec![];
    for _ in 0..src.range(1, 10) {
        let i = src.usize(nodes.len());
        let op = src.below(5);
        log.push((op, i));
        announce(ctx, || format!("{log:?}"));
        match op {
            0 => {
                nodes.push(nodes[i].clone());
                model.push(model[i].clone());
                if !Rc::ptr_eq(nodes[i].rc_ref(), nodes.last().unwrap().rc_ref()) {
                    return Err("a clone does not share its data".into());
                }
            }
            1 => {
                let d = src.range(0, 2);
                let v = tree(src, d);
                let n: NodeRc = any_node(src, &v);
                nodes[i].set_yaml(n.yaml().clone());
                model[i].0 = v;
            }
            2 => {
                let j = src.usize(nodes.len());
                let r = nodes[j].clone_yaml();
                nodes[i].set_repr(r);
                model[i].0 = model[j].0.clone();
            }
            3 => {
                // A node made of others.
                let j = src.usize(nodes.len());
                let p = src.below(100);
                nodes.push(NodeRc::new(vec![nodes[i].clone(), nodes[j].clone()], p, ""));
                model.push((Val::Seq(vec![model[i].0.clone(), model[j].0.clone()]), p, default_tag(&Val::Seq(vec![])).into()));
            }
            _ => {
                let s = src.pick(&["x", "", "~"]).to_string();
                nodes[i].set_yaml(s.clone());
                model[i].0 = Val::Str(s);
            }
        }
        if nodes.iter().map(|n| to_val(n).map_or(0, |v| v.size())).sum::<usize>() > 3000 {
            break;
        }
        for (k, (n, m)) in nodes.iter().zip(&model).enumerate() {
            let tag = if m.2.starts_with("tag:") { default_tag(&m.0) } else { &m.2 };
            if !to_val(n)?.same(&m.0) || n.pos() != m.1 || n.tag() != tag {
                return Err(format!("node {k} is {n:?} at {} with tag {:?}, expected {m:?}", n.pos(), n.tag()));
            }
        }
    }
    ctx.nontrivial(hash_str(&format!("{log:?}{:?}", nodes.last())));
    Ok(())
}

pub fn property() -> Property {
    let _ = BTreeMap::<u8, u8>::new();
    Property {
        id: "C15",
        rule: "a node, document, path, conversion or history of changes, distinct by content",
        assumptions: &[
            "as_str and as_value give the empty string for null, as documented",
            "integers beyond 64 bits are no i64: they fail with their position",
        ],
        targets: vec![
            Target { name: "accessors", f: accessors, quick: 300_000, thorough: 3_000_000, guided: 0 },
            Target { name: "parsed", f: parsed, quick: 60_000, thorough: 500_000, guided: 0 },
            Target { name: "paths", f: paths, quick: 180_000, thorough: 1_500_000, guided: 0 },
            Target { name: "conversions", f: conversions, quick: 180_000, thorough: 1_500_000, guided: 0 },
            Target { name: "changes", f: changes, quick: 180_000, thorough: 1_500_000, guided: 0 },
        ],
    }
}

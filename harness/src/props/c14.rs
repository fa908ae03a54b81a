//! Equality and hashing of nodes.
use super::common::*;
use crate::{doc::*, engine::*, model::*};
use std::collections::{HashMap, HashSet};
use yaml_peg::{repr::Repr, Map, Node, NodeArc, NodeRc, Yaml};

const STRINGS: &[&str] = &["", "a", "b", "null", "true", "1", "1.0", "~", "A", "a ", " a", "é", "e\u{301}", "ab", "k", "0x1", "nan"];

pub fn leaf(src: &mut Src) -> Val {
    match src.below(8) {
        0 => Val::Null,
        1 => Val::Bool(src.chance(1, 2)),
        2 => Val::Int(src.below(4) as i128 - 1),
        3 => match src.below(3) {
            0 => Val::Int(src.u64() as i64 as i128),
            1 => Val::Int(*src.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1 << 64, i128::MAX, i128::MIN])),
            _ => Val::Big(src.pick(&["170141183460469231731687303715884105728", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729"]).to_string()),
        },
        4 => Val::Float(*src.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 5e-324, f64::MAX])),
        5 => Val::Float(match src.below(2) {
            0 => src.below(64) as f64 / 16.0,
            _ => f64::from_bits(src.u64()),
        }),
        6 => Val::Alias(src.pick(&["a", "b", "A", "aa", "a-1", "1", "null"]).to_string()),
        _ if src.chance(1, 5) => {
            let n = src.len(40);
            let n = src.big(n, 700);
            Val::Str((0..n).map(|_| *src.pick(&['a', 'b', 'A', ' ', '\n', '\t', '\0', '0', 'é', '中', '🀄'])).collect())
        }
        _ => Val::s(*src.pick(STRINGS)),
    }
}

pub fn tree(src: &mut Src, depth: usize) -> Val {
    if depth >= 3 {
        let n = src.big(0, 60);
        if n > 0 {
            let mut v = tree(src, depth - 1);
            for _ in 0..n {
                v = match src.below(4) {
                    0 | 1 => Val::Seq(vec![v]),
                    2 => Val::Map(vec![(Val::s("d"), v)]),
                    _ => Val::Map(vec![(v, Val::s("d"))]),
                };
            }
            return v;
        }
    }
    match if depth == 0 { 0 } else { src.below(4) } {
        0 | 1 => leaf(src),
        2 => {
            let (n, depth) = src.wide(4, depth - 1);
            Val::Seq((0..n).map(|_| tree(src, depth)).collect())
        }
        _ => {
            let (n, depth) = src.wide(4, depth - 1);
            let mut m: Vec<(Val, Val)> = vec![];
            for _ in 0..n {
                let kd = if src.chance(1, 4) { depth } else { 0 };
                let k = tree(src, kd);
                if !m.iter().any(|(x, _)| x.same(&k)) {
                    let v = tree(src, depth);
                    m.push((k, v));
                }
            }
            Val::Map(m)
        }
    }
}

fn zeros(src: &mut Src) -> usize {
    let n = src.range(1, 3);
    src.big(n, 300)
}

/// A text of the integer.
pub fn int_form(src: &mut Src, i: i128) -> String {
    match src.below(6) {
        1 if i >= 0 => format!("0x{i:x}"),
        2 if i >= 0 => format!("0x{i:X}"),
        3 if i >= 0 => format!("0o{i:o}"),
        4 => format!("{}{}{}", if i < 0 { "-" } else { "" }, "0".repeat(zeros(src)), i.unsigned_abs()),
        5 if i == 0 => "-0".into(),
        _ => i.to_string(),
    }
}

/// A text of the float, as a parsed node holds it.
pub fn float_form(src: &mut Src, f: f64) -> String {
    if f.is_nan() {
        return "NaN".into();
    }
    if f.is_infinite() {
        return if f > 0. { "inf" } else { "-inf" }.into();
    }
    match src.below(6) {
        0 => format!("{f:e}"),
        1 => format!("{f:E}"),
        2 => format!("{f:?}"),
        3 => {
            let s = f.to_string();
            if s.contains('.') { s + "00" } else { s + ".0" }
        }
        4 if f == 0. => (if src.chance(1, 2) { "-0.0" } else { "0e5" }).into(),
        _ => f.to_string(),
    }
}

/// A node of this value: texts, tag and position are arbitrary.
pub fn any_node<R: Repr>(src: &mut Src, v: &Val) -> Node<R> {
    let y: Yaml<R> = match v {
        Val::Null => Yaml::Null,
        Val::Bool(b) => Yaml::Bool(*b),
        Val::Int(i) => Yaml::Int(int_form(src, *i)),
        Val::Big(s) => Yaml::Int(s.clone()),
        Val::Float(f) => Yaml::Float(float_form(src, *f)),
        Val::Str(s) => Yaml::Str(s.clone()),
        Val::Alias(a) => Yaml::Alias(a.clone()),
        Val::Seq(v) => Yaml::Seq(v.iter().map(|v| any_node(src, v)).collect()),
        Val::Map(m) => m.iter().map(|(k, v)| (any_node(src, k), any_node(src, v))).collect(),
    };
    let pos = src.below(1000);
    let tag = *src.pick(&["", "", "t", "tag:yaml.org,2002:str"]);
    Node::new(y, pos, tag)
}

/// Another value, close to this one.
pub fn change(src: &mut Src, v: &mut Val, at: &mut usize) -> bool {
    if *at > 0 {
        *at -= 1;
        return match v {
            Val::Seq(x) => x.iter_mut().any(|v| change(src, v, at)),
            Val::Map(m) => m.iter_mut().any(|(k, v)| change(src, k, at) || change(src, v, at)),
            _ => false,
        };
    }
    match v {
        Val::Seq(x) if src.chance(2, 3) => match src.below(4) {
            0 if !x.is_empty() => {
                let i = src.usize(x.len());
                x.remove(i);
            }
            1 if x.len() > 1 => {
                let i = src.usize(x.len() - 1);
                x.swap(i, i + 1);
            }
            2 => *v = Val::Map(x.iter().cloned().enumerate().map(|(i, x)| (Val::Int(i as i128), x)).collect()),
            _ => {
                let i = src.usize(x.len() + 1);
                x.insert(i, leaf(src));
            }
        },
        Val::Map(m) if src.chance(2, 3) => match src.below(4) {
            0 if !m.is_empty() => {
                let i = src.usize(m.len());
                m.remove(i);
            }
            1 if m.len() > 1 => {
                let i = src.usize(m.len() - 1);
                m.swap(i, i + 1);
            }
            2 if !m.is_empty() => {
                let i = src.usize(m.len());
                m[i].1 = leaf(src);
            }
            _ => {
                let k = leaf(src);
                if !m.iter().any(|(x, _)| x.same(&k)) {
                    m.push((k, leaf(src)));
                }
            }
        },
        // The same thing in another kind.
        Val::Int(i) if src.chance(1, 2) => {
            *v = match src.below(4) {
                0 => Val::Float(*i as f64),
                1 => Val::Str(i.to_string()),
                2 => Val::Int(i.wrapping_add(1 << 64)),
                _ => Val::Int(i.wrapping_neg()),
            }
        }
        Val::Float(f) if src.chance(1, 2) => {
            *v = match src.below(3) {
                0 => Val::Str(f.to_string()),
                1 => Val::Float(-*f),
                _ => Val::Float(f64::from_bits(f.to_bits() ^ 1)),
            }
        }
        Val::Str(s) if src.chance(1, 2) => {
            *v = match src.below(4) {
                0 => Val::Alias(if s == "b" { "b" } else { "a" }.into()),
                1 => resolve(s),
                2 => Val::Seq(vec![Val::Str(s.clone())]),
                _ => Val::Str(near(src, s)),
            }
        }
        Val::Alias(s) if src.chance(1, 2) => {
            *v = match src.below(3) {
                0 => Val::Str(s.clone()),
                _ => Val::Alias(near(src, s)),
            }
        }
        _ => *v = leaf(src),
    }
    true
}

/// A string that differs a little.
fn near(src: &mut Src, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = src.usize(c.len() + 1);
    match src.below(7) {
        0 => return s.to_uppercase(),
        1 => return s.to_lowercase(),
        2 => return format!("{s}{}", src.pick(&[" ", "\n", "\0", "\t", "a"])),
        3 => return format!(" {s}"),
        4 if i < c.len() => {
            c.remove(i);
        }
        5 if i < c.len() => {
            c[i] = char::from_u32(u32::from(c[i]) ^ 0x20).unwrap_or('x');
        }
        6 if i + 1 < c.len() => c.swap(i, i + 1),
        _ => c.insert(i, 'a'),
    }
    c.into_iter().collect()
}

fn pair(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 4);
    let a = tree(src, depth);
    let mut vals = vec![a.clone(), a.clone()];
    let mut c = a.clone();
    let n = src.range(1, 2);
    for _ in 0..n {
        let mut at = src.usize(c.size());
        change(src, &mut c, &mut at);
    }
    vals.push(c);
    let nodes: Vec<NodeRc> = vals.iter().map(|v| any_node(src, v)).collect();
    let arcs: Vec<NodeArc> = vals.iter().map(|v| any_node(src, v)).collect();
    // Maps whose changed keys collide lose an entry: read the data back.
    let vals: Vec<Val> = nodes.iter().map(to_val).collect::<Result<_, _>>()?;
    let arc_vals: Vec<Val> = arcs.iter().map(to_val).collect::<Result<_, _>>()?;
    announce(ctx, || format!("{nodes:#?}"));
    ctx.nontrivial(hash_str(&format!("{nodes:?}")));
    ctx.label_if(!vals[0].same(&vals[2]), "different");
    for i in 0..3 {
        for j in 0..3 {
            let want = vals[i].same(&vals[j]);
            if yshim::eq_rc(&nodes[i], &nodes[j]) != want || (nodes[i] != nodes[j]) == want || (nodes[i].yaml() == nodes[j].yaml()) != want {
                return Err(format!("nodes {i} and {j}: equality should be {want}"));
            }
            if (arcs[i] == arcs[j]) != arc_vals[i].same(&arc_vals[j]) {
                return Err(format!("Arc nodes {i} and {j}: equality should be {want}"));
            }
            if want && (yshim::hash_rc(&nodes[i]) != yshim::hash_rc(&nodes[j]) || std_hash(nodes[i].yaml()) != std_hash(nodes[j].yaml())) {
                return Err(format!("equal nodes {i} and {j} have different hashes"));
            }
            if arc_vals[i].same(&arc_vals[j]) && std_hash(&arcs[i]) != std_hash(&arcs[j]) {
                return Err(format!("equal Arc nodes {i} and {j} have different hashes"));
            }
        }
    }
    Ok(())
}

/// Collections of many entries, one of them changed, often the last.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let a = wide_val(src);
    let mut c = a.clone();
    let n = match &a {
        Val::Seq(v) => v.len(),
        Val::Map(m) => m.len(),
        _ => 0,
    };
    let i = if src.chance(1, 2) { n - 1 } else { src.usize(n) };
    let cut = src.chance(1, 3);
    match &mut c {
        Val::Seq(v) if cut => v.truncate(i),
        Val::Map(m) if cut => m.truncate(i),
        Val::Seq(v) => v[i] = Val::s("other"),
        Val::Map(m) if src.chance(1, 2) => m[i].0 = Val::s("other"),
        Val::Map(m) => m[i].1 = Val::s("other"),
        _ => {}
    }
    announce(ctx, || format!("{n} entries, {} at {i}", if cut { "cut" } else { "changed" }));
    ctx.nontrivial(hash_str(&format!("{c:?}")));
    let (x, y, z): (NodeRc, NodeRc, NodeRc) = (build_node(&a), build_node(&a), build_node(&c));
    if x != y || std_hash(&x) != std_hash(&y) || yshim::hash_rc(&x) != yshim::hash_rc(&y) {
        return Err(format!("equal nodes of {n} entries are not equal, or their hashes"));
    }
    if x == z || z == x || x.yaml() == z.yaml() {
        return Err(format!("nodes of {n} entries are equal, but {i} is {}", if cut { "cut" } else { "changed" }));
    }
    Ok(())
}

/// Parsed documents: equality is what the model says about their values.
/// Aliases that can be written.
fn alias_names(v: &mut Val) {
    match v {
        Val::Alias(a) => {
            a.retain(|c| c.is_ascii_alphanumeric() || c == '-');
            a.insert(0, 'a');
        }
        Val::Seq(v) => v.iter_mut().for_each(alias_names),
        Val::Map(m) => m.iter_mut().for_each(|(k, v)| {
            alias_names(k);
            alias_names(v)
        }),
        _ => {}
    }
}

fn parsed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 3);
    let mut a = tree(src, depth);
    let mut b = a.clone();
    if src.chance(1, 2) {
        let mut at = src.usize(b.size());
        change(src, &mut b, &mut at);
    }
    let mut out = vec![];
    for v in [&mut a, &mut b] {
        alias_names(v);
        let n: NodeRc = any_node(src, v);
        let text = yshim::dump_rc(&[n], &[]);
        // Aliases stay as they are in cyclic mode.
        let (mut r, _) = yshim::cyclic_rc(&text).map_err(|e| format!("rejected: {e}\n{text}"))?;
        out.push((r.remove(0), text));
    }
    announce(ctx, || format!("{}\n=====\n{}", out[0].1, out[1].1));
    ctx.nontrivial(hash_str(&format!("{}{}", out[0].1, out[1].1)));
    let want = to_val(&out[0].0)?.same(&to_val(&out[1].0)?);
    ctx.label_if(want, "equal");
    if yshim::eq_rc(&out[0].0, &out[1].0) != want || yshim::eq_rc(&out[1].0, &out[0].0) != want {
        return Err(format!("equality should be {want}"));
    }
    if want && yshim::hash_rc(&out[0].0) != yshim::hash_rc(&out[1].0) {
        return Err("equal nodes have different hashes".into());
    }
    Ok(())
}

/// A history of insertions, lookups and removals in hashed collections.
fn collections(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let pool: Vec<Val> = (0..src.range(1, 6))
        .map(|_| {
            let d = src.range(0, 2);
            tree(src, d)
        })
        .collect();
    let mut log = vec![];
    let mut set: HashSet<NodeRc> = HashSet::new();
    let mut map: HashMap<NodeRc, usize> = HashMap::new();
    let mut own: Map<yaml_peg::repr::RcRepr> = Map::new();
    // Order matters in the library's own map.
    let mut model: Vec<(Val, usize)> = vec![];
    for step in 0..src.range(1, 12) {
        let v = src.pick(&pool).clone();
        let n: NodeRc = any_node(src, &v);
        let v = to_val(&n)?;
        let at = model.iter().position(|(x, _)| x.same(&v));
        let op = src.below(3);
        log.push((["insert", "remove", "get"][op as usize], format!("{n:?}")));
        announce(ctx, || format!("{log:#?}"));
        match op {
            0 => {
                let fresh = set.insert(n.clone());
                let old = map.insert(n.clone(), step);
                let old2 = own.insert(n, NodeRc::from(step));
                let want = at.map(|i| model.remove(i).1);
                model.push((v, step));
                if fresh != want.is_none() || old != want || old2 != want.map(NodeRc::from) {
                    return Err(format!("insert gives {fresh} {old:?} {old2:?}, expected {want:?}"));
                }
            }
            1 => {
                let want = at.map(|i| model.remove(i).1);
                let (a, b, c) = (set.remove(&n), map.remove(&n), own.remove(&n));
                if a != want.is_some() || b != want || c != want.map(NodeRc::from) {
                    return Err(format!("remove gives {a} {b:?} {c:?}, expected {want:?}"));
                }
            }
            _ => {
                let want = at.map(|i| model[i].1);
                let (a, b, c) = (set.contains(&n), map.get(&n).copied(), own.get(&n).cloned());
                if a != want.is_some() || b != want || c != want.map(NodeRc::from) {
                    return Err(format!("get gives {a} {b:?} {c:?}, expected {want:?}"));
                }
            }
        }
        if set.len() != model.len() || map.len() != model.len() || own.len() != model.len() {
            return Err(format!("{} keys, expected {}", set.len(), model.len()));
        }
    }
    ctx.nontrivial(hash_str(&format!("{log:?}")));
    let got = own.iter().map(|(k, v)| Ok((to_val(k)?, v.clone()))).collect::<Result<Vec<_>, String>>()?;
    if !got.iter().zip(&model).all(|(a, b)| a.0.same(&b.0) && a.1 == NodeRc::from(b.1)) {
        return Err(format!("the map is {own:?}, expected {model:?}"));
    }
    Ok(())
}

pub fn property() -> Property {
    let _ = Cfg::default();
    Property {
        id: "C14",
        rule: "a triple of nodes, a pair of documents or a history over a pool of keys, distinct by content",
        assumptions: &["integers beyond 128 bits are compared by their digits"],
        targets: vec![
            Target { name: "pair", f: pair, quick: 360_000, thorough: 4_000_000, guided: 0 },
            Target { name: "wide", f: wide, quick: 1_000, thorough: 20_000, guided: 0 },
            Target { name: "parsed", f: parsed, quick: 180_000, thorough: 1_500_000, guided: 0 },
            Target { name: "collections", f: collections, quick: 180_000, thorough: 2_000_000, guided: 0 },
        ],
    }
}

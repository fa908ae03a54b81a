//! Anchors and aliases.
use super::common::*;
use crate::{doc::*, engine::*, model::*};
use std::collections::BTreeMap;
use std::rc::Rc;
use yaml_peg::{parser::Anchors, repr::RcRepr, NodeRc, Yaml};

fn cfg(src: &mut Src) -> Cfg {
    Cfg {
        anchors: true,
        tags: src.chance(1, 2),
        block_scalars: src.chance(1, 3),
        multiline: src.chance(1, 4),
        ..Cfg::default()
    }
}

fn count_alias(n: &DNode) -> usize {
    n.count(&|d| matches!(d.body, Body::Alias(..)))
}

fn anchors_of(n: &DNode) -> Vec<String> {
    let mut v = vec![];
    n.walk(&mut |d| v.extend(d.anchor.clone()));
    v
}

/// The anchor table must hold exactly the anchored nodes of the tree.
fn check_table(d: &DNode, n: &NodeRc, t: &Anchors<RcRepr>) -> Result<(), String> {
    let mut seen: BTreeMap<String, ()> = BTreeMap::new();
    zip(d, n, &mut |d, n| {
        if let Some(a) = &d.anchor {
            seen.insert(a.clone(), ());
            let e = t.get(a).ok_or_else(|| format!("anchor {a} is not in the table"))?;
            if !Rc::ptr_eq(e.rc_ref(), n.rc_ref()) {
                return Err(format!("anchor {a} does not share its node: {e:?} and {n:?}"));
            }
            if e.tag() != n.tag() || e.pos() != n.pos() {
                return Err(format!("anchor {a} has another tag or position than its node"));
            }
        }
        Ok(())
    })?;
    if t.len() != seen.len() {
        return Err(format!("the table has {:?}, expected {:?}", t.keys().collect::<Vec<_>>(), seen.keys().collect::<Vec<_>>()));
    }
    Ok(())
}

/// Direct mode: aliases become the anchored value and share its storage.
fn direct(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let c = cfg(src);
    let (n, text) = super::c02::gen_doc(src, c, st);
    announce(ctx, || format!("{text}\n{text:?}"));
    let k = count_alias(&n);
    if k > 0 {
        ctx.nontrivial(hash_str(&text));
    }
    ctx.label_if(k > 1, "several aliases");
    let exp = n.val(false);
    let (got, table) = yshim::load_rc(text.as_bytes(), false).map_err(|e| format!("rejected: {e}\n expected {exp:?}"))?;
    diff(std::slice::from_ref(&exp), &to_vals(&got)?)?;
    let plain = expect_rc(&text, &[exp])?;
    if plain != got {
        return Err("parse and Loader::parse disagree".into());
    }
    if table.len() != 1 {
        return Err(format!("{} anchor tables for one document", table.len()));
    }
    check_table(&n, &got[0], &table[0])?;
    zip(&n, &got[0], &mut |d, n| {
        if let Body::Alias(a, _) = &d.body {
            if !Rc::ptr_eq(table[0][a].rc_ref(), n.rc_ref()) {
                return Err(format!("the alias of {a} does not share the node of the anchor"));
            }
            if table[0][a].tag() != n.tag() {
                return Err(format!("the alias of {a} has the tag {:?}, its anchor {:?}", n.tag(), table[0][a].tag()));
            }
        }
        Ok(())
    })
}

fn rename(n: &mut DNode, names: &[String], src: &mut Src) {
    match &mut n.body {
        Body::Alias(a, _) => {
            if src.chance(2, 3) && !names.is_empty() {
                *a = src.pick(names).clone();
            }
        }
        Body::FlowSeq(v) | Body::Seq(v) => v.iter_mut().for_each(|n| rename(n, names, src)),
        Body::FlowMap(m) | Body::Map(m) => m.iter_mut().for_each(|(_, v)| rename(v, names, src)),
        _ => {}
    }
}

/// Cyclic mode: aliases stay placeholders, also before and inside their anchor.
fn cyclic(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let docs = src.range(1, 3);
    let docs = src.big(docs, 150);
    let mut text = String::new();
    let mut trees = vec![];
    for i in 0..docs {
        let c = cfg(src);
        let depth = if docs > 8 { src.range(0, 1) } else { src.range(1, 4) };
        let mut n = gen(src, c).block_node(depth, true);
        let mut names = anchors_of(&n);
        names.push("none9".into());
        rename(&mut n, &names, src);
        let mut r = Ren::new(src, st);
        let block = matches!(n.body, Body::Block { .. });
        let m = i > 0 || block || r.src.chance(1, 3);
        r.root(&n, m);
        text.push_str(&r.out);
        trees.push(n);
    }
    announce(ctx, || format!("{text}\n{text:?}"));
    if trees.iter().any(|n| count_alias(n) > 0) {
        ctx.nontrivial(hash_str(&text));
    }
    let exp: Vec<Val> = trees.iter().map(|n| n.val(true)).collect();
    let (got, tables) = yshim::cyclic_rc(&text).map_err(|e| format!("rejected: {e}\n expected {exp:?}"))?;
    diff(&exp, &to_vals(&got)?)?;
    if tables.len() != docs {
        return Err(format!("{} anchor tables for {docs} documents", tables.len()));
    }
    for i in 0..docs {
        check_table(&trees[i], &got[i], &tables[i])?;
        zip(&trees[i], &got[i], &mut |d, n| {
            let r = n.as_anchor(&tables[i]);
            match &d.body {
                Body::Alias(a, _) => match (r, tables[i].get(a)) {
                    (Ok(x), Some(y)) if std::ptr::eq(x, y) => Ok(()),
                    (Err(p), None) if p == n.pos() => Ok(()),
                    (r, _) => Err(format!("as_anchor of *{a} gives {r:?}")),
                },
                _ => match r {
                    Ok(x) if std::ptr::eq(x, n) => Ok(()),
                    r => Err(format!("as_anchor of a node that is no alias gives {r:?}")),
                },
            }
        })?;
    }
    Ok(())
}

fn err_name(text: &str, cyclic: bool, want: &str) -> Result<(), String> {
    let r = yshim::load_rc(text.as_bytes(), cyclic);
    match r {
        Ok((v, _)) => Err(format!("{want}: accepted as {:?}", to_vals(&v))),
        Err(e) => {
            let (name, _) = perr(&e);
            if name == want {
                Ok(())
            } else {
                Err(format!("expected the error {want:?}, found {name:?}"))
            }
        }
    }
}

/// Documents with exactly one misuse of an anchor.
fn misuse(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let kind = src.below(5);
    let c = Cfg { anchors: true, depth: 3, ..Cfg::default() };
    let mut pre: Vec<(DNode, DNode)> = vec![];
    let mut g = gen(src, c);
    let n = g.src.range(0, 3);
    for i in 0..n {
        let v = g.block_node(2, false);
        pre.push((DNode::new(Body::Plain(format!("k{i}"))), v));
    }
    let mut tail: Vec<(DNode, DNode)> = vec![];
    let n = g.src.range(0, 2);
    for i in 0..n {
        let v = g.block_node(2, false);
        tail.push((DNode::new(Body::Plain(format!("t{i}"))), v));
    }
    let ident = g.ident();
    let alias = |n: &str| DNode::new(Body::Alias(n.into(), Box::new(Val::Null)));
    // The bad node sits at the end of a small path.
    let wrap = |src: &mut Src, n: DNode| {
        let k = src.range(0, 3);
        (0..k).fold(n, |n, _| match src.below(4) {
            0 => DNode::new(Body::Seq(vec![n])),
            1 => DNode::new(Body::Map(vec![(DNode::new(Body::Plain("w".into())), n)])),
            2 if !n.is_block() => DNode::new(Body::FlowSeq(vec![n])),
            3 if !n.is_block() => DNode::new(Body::FlowMap(vec![(DNode::new(Body::Plain("w".into())), n)])),
            _ => DNode::new(Body::Seq(vec![n])),
        })
    };
    let anchored = |name: &str, src: &mut Src| {
        let mut n = DNode::new(if src.chance(1, 2) { Body::Plain("v".into()) } else { Body::FlowSeq(vec![]) });
        n.anchor = Some(name.into());
        n
    };
    let key = |s: &str| DNode::new(Body::Plain(s.into()));
    let mut m = pre;
    let (what, direct, cyc): (_, Option<&str>, Option<&str>);
    let mut second: Option<DNode> = None;
    match kind {
        0 => {
            let name = format!("u{ident}u");
            let b = wrap(src, alias(&name));
            m.push((key("bad"), b));
            what = "undefined";
            direct = Some("anchor referenced before definition");
            cyc = None;
        }
        1 => {
            let name = format!("u{ident}u");
            let b = wrap(src, alias(&name));
            m.push((key("bad"), b));
            let a = anchored(&name, src);
            let d = wrap(src, a);
            m.push((key("def"), d));
            what = "used before its definition";
            direct = Some("anchor referenced before definition");
            cyc = None;
        }
        2 => {
            let name = format!("u{ident}u");
            let a = anchored(&name, src);
            let d = wrap(src, a);
            m.push((key("def"), d));
            let a = anchored(&name, src);
            let b = wrap(src, a);
            m.push((key("bad"), b));
            what = "defined twice";
            direct = Some("duplicated anchor definition");
            cyc = direct;
        }
        3 => {
            // Inside its own definition.
            let name = format!("u{ident}u");
            let b = wrap(src, alias(&name));
            let mut d = DNode::new(Body::Seq(vec![b]));
            d.anchor = Some(name);
            m.push((key("bad"), d));
            what = "used inside its own node";
            direct = Some("anchor referenced before definition");
            cyc = None;
        }
        _ => {
            let name = format!("u{ident}u");
            let a = anchored(&name, src);
            let d = wrap(src, a);
            m.push((key("def"), d));
            let b = wrap(src, alias(&name));
            second = Some(DNode::new(Body::Map(vec![(key("bad"), b)])));
            what = "defined in another document";
            direct = Some("anchor referenced before definition");
            cyc = None;
        }
    }
    m.extend(tail);
    let root = DNode::new(Body::Map(m));
    let mut r = Ren::new(src, st);
    r.root(&root, false);
    let mut between = 0;
    if let Some(s) = &second {
        between = r.src.big(0, 300);
        for _ in 0..between {
            r.root(&DNode::new(Body::Plain("b".into())), true);
        }
        r.root(s, true);
    }
    let text = r.out;
    announce(ctx, || format!("anchor {what}\n{text}\n{text:?}"));
    ctx.label(what);
    ctx.nontrivial(hash_str(&text));
    if let Some(w) = direct {
        err_name(&text, false, w)?;
    }
    match cyc {
        Some(w) => err_name(&text, true, w),
        None => match yshim::cyclic_rc(&text) {
            Ok((v, _)) => {
                let mut exp = vec![root.val(true)];
                exp.extend((0..between).map(|_| Val::s("b")));
                exp.extend(second.iter().map(|s| s.val(true)));
                diff(&exp, &to_vals(&v)?)
            }
            Err(e) => Err(format!("cyclic mode rejects: {e}")),
        },
    }
}

/// The same anchor names in every document of a stream are independent.
fn streams(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let k = src.range(2, 4);
    let k = src.big(k, 300);
    let mut exp = vec![];
    let mut out = String::new();
    for i in 0..k {
        let v = { gen(src, Cfg::default()).plain_string(true) };
        let mut d = DNode::new(Body::Plain(v.clone()));
        d.anchor = Some("same".into());
        let a = DNode::new(Body::Alias("same".into(), Box::new(Val::Str(v))));
        let n = if src.chance(1, 2) {
            DNode::new(Body::Seq(vec![d, a]))
        } else {
            DNode::new(Body::FlowSeq(vec![d, a]))
        };
        exp.push(n.val(false));
        let mut r = Ren::new(src, st);
        r.root(&n, i > 0);
        out.push_str(&r.out);
    }
    announce(ctx, || format!("{out}\n{out:?}"));
    ctx.nontrivial(hash_str(&out));
    let (got, tables) = yshim::load_rc(out.as_bytes(), false).map_err(|e| format!("rejected: {e}\n expected {exp:?}"))?;
    diff(&exp, &to_vals(&got)?)?;
    if tables.len() != k {
        return Err(format!("{} anchor tables for {k} documents", tables.len()));
    }
    for (t, n) in tables.iter().zip(&got) {
        let Yaml::Seq(v) = n.yaml() else { return Err("no sequence".into()) };
        if t.len() != 1 || !Rc::ptr_eq(t["same"].rc_ref(), v[0].rc_ref()) || !Rc::ptr_eq(v[1].rc_ref(), v[0].rc_ref()) {
            return Err(format!("wrong table {t:?} for {n:?}"));
        }
    }
    Ok(())
}

/// Many anchors, and aliases of some of them.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = many(src);
    let k = src.range(1, 40);
    let used: Vec<usize> = (0..k).map(|i| if i == 0 { n - 1 } else { src.usize(n) }).collect();
    let flow = src.chance(1, 3);
    let mut text = String::new();
    let items = (0..n).map(|i| format!("&a{i} v{i}")).chain(used.iter().map(|i| format!("*a{i}")));
    for (i, x) in items.enumerate() {
        text += &match (flow, i) {
            (false, _) => format!("- {x}\n"),
            (true, 0) => format!("[{x}"),
            _ => format!(",\n {x}"),
        };
    }
    text += if flow { "]\n" } else { "" };
    announce(ctx, || format!("{n} anchors, aliases of {used:?}\n{}", text.chars().take(2000).collect::<String>()));
    ctx.nontrivial(hash_str(&text));
    let (got, t) = yshim::load_rc(text.as_bytes(), false).map_err(|e| format!("rejected: {e}"))?;
    let Yaml::Seq(v) = got[0].yaml() else { return Err("no sequence".into()) };
    if t[0].len() != n || v.len() != n + k {
        return Err(format!("{} anchors and {} items, expected {n} and {}", t[0].len(), v.len(), n + k));
    }
    for i in 0..n {
        let e = t[0].get(&format!("a{i}")).ok_or_else(|| format!("a{i} is missing"))?;
        if !Rc::ptr_eq(e.rc_ref(), v[i].rc_ref()) || *e.yaml() != Yaml::Str(format!("v{i}")) {
            return Err(format!("a{i} is {e:?}"));
        }
    }
    for (j, i) in used.iter().enumerate() {
        if !Rc::ptr_eq(v[n + j].rc_ref(), v[*i].rc_ref()) {
            return Err(format!("the alias of a{i} is {:?}", v[n + j]));
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "a document with at least one alias, or with exactly one misuse of an anchor, distinct by text",
        assumptions: &["anchor names consist of ASCII letters, digits, '-' and '_' (the names the library supports)"],
        targets: vec![
            Target { name: "direct", f: direct, quick: 360_000, thorough: 4_000_000, guided: 0 },
            Target { name: "cyclic", f: cyclic, quick: 360_000, thorough: 4_000_000, guided: 0 },
            Target { name: "misuse", f: misuse, quick: 300_000, thorough: 3_000_000, guided: 0 },
            Target { name: "wide", f: wide, quick: 1_000, thorough: 20_000, guided: 0 },
            Target { name: "streams", f: streams, quick: 90_000, thorough: 500_000, guided: 0 },
        ],
    }
}

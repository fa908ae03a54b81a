//! Nodes of both representations behave the same.
use super::common::*;
use crate::{doc::*, engine::*, model::*};
use serde::Deserialize;
use std::sync::Arc;
use yaml_peg::{
    parser::Anchors,
    repr::{ArcRepr, RcRepr},
    serde::*,
    Ind, NodeArc, NodeRc, Yaml,
};

/// The same texts, tags, positions and sharing at every place.
fn same_tree(a: &NodeRc, b: &NodeArc) -> Result<(), String> {
    let bad = || Err(format!("{a:?} ({:?} at {}) and {b:?} ({:?} at {})", a.tag(), a.pos(), b.tag(), b.pos()));
    if a.tag() != b.tag() || a.pos() != b.pos() {
        return bad();
    }
    match (a.yaml(), b.yaml()) {
        (Yaml::Null, Yaml::Null) => {}
        (Yaml::Bool(x), Yaml::Bool(y)) if x == y => {}
        (Yaml::Int(x), Yaml::Int(y)) | (Yaml::Float(x), Yaml::Float(y)) | (Yaml::Str(x), Yaml::Str(y)) | (Yaml::Alias(x), Yaml::Alias(y)) if x == y => {}
        (Yaml::Seq(x), Yaml::Seq(y)) if x.len() == y.len() => {
            for (a, b) in x.iter().zip(y) {
                same_tree(a, b)?;
            }
        }
        (Yaml::Map(x), Yaml::Map(y)) if x.len() == y.len() => {
            for ((k, a), (l, b)) in x.iter().zip(y) {
                same_tree(k, l)?;
                same_tree(a, b)?;
            }
        }
        _ => return bad(),
    }
    Ok(())
}

fn tables(a: &[Anchors<RcRepr>], b: &[Anchors<ArcRepr>]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} anchor tables and {}", a.len(), b.len()));
    }
    for (a, b) in a.iter().zip(b) {
        if !a.keys().eq(b.keys()) {
            return Err(format!("anchors {:?} and {:?}", a.keys(), b.keys()));
        }
        for (x, y) in a.values().zip(b.values()) {
            same_tree(x, y)?;
        }
    }
    Ok(())
}

type Loaded<N, A> = Result<(Vec<N>, Vec<A>), yaml_peg::parser::PError>;

fn agree(a: Loaded<NodeRc, Anchors<RcRepr>>, b: Loaded<NodeArc, Anchors<ArcRepr>>) -> Result<bool, String> {
    let ((a, ta), (b, tb)) = match (a, b) {
        (Err(x), Err(y)) => {
            return if perr(&x) == perr(&y) && x.to_string() == y.to_string() && format!("{x:?}") == format!("{y:?}") {
                Ok(false)
            } else {
                Err(format!("the errors differ: {x} and {y}"))
            };
        }
        (Ok(a), Ok(b)) => (a, b),
        (Ok(_), Err(e)) => return Err(format!("only Arc fails: {e}")),
        (Err(e), Ok(_)) => return Err(format!("only Rc fails: {e}")),
    };
    if a.len() != b.len() {
        return Err(format!("{} documents and {}", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(&b) {
        same_tree(x, y)?;
        if yshim::hash_rc(x) != yshim::hash_arc(y) {
            return Err(format!("the hashes of {x:?} differ"));
        }
        if yshim::debug_rc(x) != yshim::debug_arc(y) {
            return Err(format!("{} and {}", yshim::debug_rc(x), yshim::debug_arc(y)));
        }
    }
    tables(&ta, &tb)?;
    for i in 0..a.len().min(4) {
        for j in 0..a.len().min(4) {
            if yshim::eq_rc(&a[i], &a[j]) != yshim::eq_arc(&b[i], &b[j]) {
                return Err(format!("equality of the documents {i} and {j} differs"));
            }
        }
    }
    let (x, y) = (yshim::dump_rc(&a, &ta), yshim::dump_arc(&b, &tb));
    if x != y {
        return Err(format!("the dumps differ: {x:?} and {y:?}"));
    }
    if yshim::dump_rc(&a, &[]) != yshim::dump_arc(&b, &[]) {
        return Err("the dumps without anchors differ".into());
    }
    // Serialization, of one kind into the other.
    for (x, y) in a.iter().zip(&b) {
        match (to_string(x), to_string(y)) {
            (Ok(s), Ok(t)) if s == t => {}
            (Err(e), Err(f)) if e.msg == f.msg && e.pos == f.pos => {}
            (s, t) => return Err(format!("to_string gives {s:?} and {t:?}")),
        }
        let flat = |r: Result<NodeRc, SerdeError>| r.map(|n| format!("{n:?}")).map_err(|e| (e.msg, e.pos));
        let flat_arc = |r: Result<NodeArc, SerdeError>| r.map(|n| format!("{n:?}")).map_err(|e| (e.msg, e.pos));
        let all = [flat(to_node(x)), flat(to_node(y)), flat_arc(to_arc_node(x)), flat_arc(to_arc_node(y))];
        if all.iter().any(|r| *r != all[0]) {
            return Err(format!("serialization differs: {all:?}"));
        }
        let all = [flat(NodeRc::deserialize(x.clone())), flat(NodeRc::deserialize(y.clone())), flat_arc(NodeArc::deserialize(x.clone())), flat_arc(NodeArc::deserialize(y.clone()))];
        if all.iter().any(|r| *r != all[0]) {
            return Err(format!("deserialization differs: {all:?}"));
        }
    }
    Ok(true)
}

fn check(ctx: &mut Ctx, bytes: &[u8]) -> Result<(), String> {
    let shown = String::from_utf8_lossy(bytes).to_string();
    announce(ctx, || format!("{shown}\n{shown:?}"));
    ctx.nontrivial(hash_str(&shown));
    let ok = agree(yshim::load_rc(bytes, false), yshim::load_arc(bytes, false)).map_err(|e| format!("direct mode: {e}"))?;
    let cyclic = agree(yshim::load_rc(bytes, true), yshim::load_arc(bytes, true)).map_err(|e| format!("cyclic mode: {e}"))?;
    ctx.label(match (ok, cyclic) {
        (true, true) => "accepted",
        (false, true) => "accepted in cyclic mode",
        _ => "rejected",
    });
    if let Ok(s) = std::str::from_utf8(bytes) {
        agree(yshim::parse_rc(s).map(|v| (v, vec![])), yshim::parse_arc(s).map(|v| (v, vec![])))?;
        agree(yshim::cyclic_rc(s), yshim::cyclic_arc(s))?;
    }
    Ok(())
}

fn documents(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { tags: true, anchors: true, block_scalars: true, multiline: true, ..Cfg::default() };
    let mut text = String::new();
    for i in 0..src.weighted(&[4, 2, 1]) + 1 {
        let st = style(src);
        let depth = src.range(1, 3);
        let n = gen(src, cfg.clone()).block_node(depth, true);
        let mut r = Ren::new(src, st);
        let m = i > 0 || matches!(n.body, Body::Block { .. }) || r.src.chance(1, 3);
        r.root(&n, m);
        text.push_str(&r.out);
    }
    check(ctx, text.as_bytes())
}

fn broken(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let b = if src.chance(1, 3) { super::c01::token_text(src).into_bytes() } else { super::c01::mutated_text(src) };
    check(ctx, &b)
}

fn summary(n: &NodeArc) -> (u64, String, String, Option<Val>, usize) {
    let mut found = 0;
    if let Yaml::Seq(s) = n.yaml() {
        found = (0..s.len()).filter(|i| n.get_ind(Ind(*i)).is_ok()).count();
    }
    if let Yaml::Map(m) = n.yaml() {
        found = m.keys().filter(|k| n.get((*k).clone()).is_ok()).count();
    }
    (yshim::hash_arc(n), yshim::debug_arc(n), yshim::dump_arc(std::slice::from_ref(n), &[]), to_val(n).ok(), found)
}

/// Concurrent readers, which clone and drop nodes of the tree all the time.
fn threads(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    fn shareable<T: Send + Sync>(_: &T) {}
    let cfg = Cfg { tags: true, anchors: true, block_scalars: true, multiline: true, ..Cfg::default() };
    let st = style(src);
    let (_, text) = super::c02::gen_doc(src, cfg, st);
    announce(ctx, || format!("{text}\n{text:?}"));
    ctx.nontrivial(hash_str(&text));
    let v = yshim::parse_arc(&text).map_err(|e| format!("rejected: {e}"))?;
    shareable(&v);
    let root = &v[0];
    let want = summary(root);
    let count = Arc::strong_count(root.rc_ref());
    let results: Vec<Result<bool, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let (want, text) = (&want, &text);
                s.spawn(move || {
                    catch(|| {
                        let mut ok = true;
                        for _ in 0..4 {
                            let mine = root.clone();
                            ok &= summary(&mine) == *want || want.3.as_ref().is_some_and(has_nan);
                            let parts: Vec<NodeArc> = match mine.yaml() {
                                Yaml::Seq(v) => v.clone(),
                                Yaml::Map(m) => m.values().cloned().collect(),
                                _ => vec![],
                            };
                            drop(mine);
                            ok &= parts.iter().all(|p| yshim::debug_arc(p).len() > 1);
                            // Parsers share nothing.
                            if k % 2 == 0 {
                                ok &= yshim::parse_arc(text).is_ok_and(|v| v[0] == *root);
                            }
                        }
                        ok
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reader died".into()))).collect()
    });
    for r in results {
        match r {
            Ok(true) => {}
            Ok(false) => return Err("a reader saw something else".into()),
            Err(e) => return Err(e),
        }
    }
    if Arc::strong_count(root.rc_ref()) != count {
        return Err("the references do not add up".into());
    }
    // A node moved to another thread is freed there.
    let moved = std::thread::spawn(move || summary(&v[0]).0).join();
    if moved.ok() != Some(want.0) {
        return Err("the node changed when moved to another thread".into());
    }
    Ok(())
}

fn has_nan(v: &Val) -> bool {
    let mut nan = false;
    super::c11::each(v, &mut |v| nan |= matches!(v, Val::Float(f) if f.is_nan()));
    nan
}

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "an input, distinct by text",
        assumptions: &["the schedules of concurrent readers are those the operating system produces"],
        targets: vec![
            Target { name: "documents", f: documents, quick: 90_000, thorough: 1_000_000, guided: 0 },
            Target { name: "broken", f: broken, quick: 180_000, thorough: 2_000_000, guided: 0 },
            Target { name: "threads", f: threads, quick: 9_000, thorough: 60_000, guided: 0 },
        ],
    }
}

//! Document streams.
use super::common::*;
use crate::{doc::*, engine::*, model::*};

fn cfg(src: &mut Src) -> Cfg {
    Cfg {
        tags: src.chance(1, 4),
        anchors: src.chance(1, 4),
        block_scalars: src.chance(1, 2),
        multiline: src.chance(1, 3),
        depth: 3,
        width: 3,
        ..Cfg::default()
    }
}

const COMMENT: &[&str] = &["# c", "#", "  # c", "\t# c", "# --- x", "# ..."];

/// Blank and comment lines between documents. After a block scalar only what
/// cannot belong to it.
fn between(src: &mut Src, out: &mut String, nl: &str, blank: bool, comment: bool) {
    let n = src.weighted(&[5, 2, 1]);
    let n = src.big(n, 50);
    for _ in 0..n {
        if src.chance(1, 2) && blank {
            out.push_str(nl);
        } else if comment {
            out.push_str(if blank { *src.pick(COMMENT) } else { "# c" });
            out.push_str(nl);
        }
    }
}

fn stream(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let nl = st.nl;
    let k = src.range(1, 5);
    let k = src.big(k, 150);
    let mut text = String::new();
    let mut exp = vec![];
    let mut alone = vec![];
    let mut dots = 0;
    let named = src.chance(1, 6);
    between(src, &mut text, nl, true, true);
    for i in 0..k {
        let last = i + 1 == k;
        let mut piece = String::new();
        if src.chance(1, 6) {
            // An empty document.
            piece.push_str("---");
            if src.chance(1, 3) {
                piece.push_str(*src.pick(&[" ", " # c", "   # c", " &e1", " !t", " ~", " null"]));
            }
            piece.push_str(nl);
            between(src, &mut piece, nl, true, true);
            exp.push(Val::Null);
        } else {
            let c = cfg(src);
            let depth = if k > 8 { src.range(0, 1) } else { src.range(0, 3) };
            let mut n = gen(src, c).block_node(depth, true);
            // Every document has its own anchors.
            if named && n.anchor.is_none() && !matches!(n.body, Body::Alias(..)) {
                n.anchor = Some("same".into());
            }
            let block = n.count(&|d| matches!(d.body, Body::Block { .. })) > 0;
            let marker = i > 0 || matches!(n.body, Body::Block { .. }) || src.chance(1, 2);
            let mut r = Ren::new(src, st);
            r.root(&n, marker);
            piece.push_str(&r.out);
            exp.push(n.val(false));
            if !block {
                between(src, &mut piece, nl, true, true);
            }
        }
        alone.push(piece.clone());
        text.push_str(&piece);
        // The document end mark is optional.
        if src.chance(1, 4) {
            dots += 1;
            text.push_str("...");
            if src.chance(1, 3) {
                text.push_str(*src.pick(&["  ", " # end", "   # --- z"]));
            }
            text.push_str(nl);
            between(src, &mut text, nl, true, true);
        }
        if last && src.chance(1, 4) {
            let l = text.strip_suffix(nl).map(str::len).unwrap_or(text.len());
            if !text[..l].trim_end_matches(' ').ends_with(['\n', '\r']) {
                text.truncate(l);
            }
        }
    }
    announce(ctx, || format!("{text}\n{text:?}"));
    ctx.label_if(dots > 0, "document end mark");
    ctx.label_if(exp.contains(&Val::Null), "empty document");
    if k > 1 {
        ctx.nontrivial(hash_str(&text));
    }
    expect_rc(&text, &exp)?;
    // Every document means the same on its own.
    for (i, p) in alone.iter().enumerate() {
        let v = expect_rc(p, &exp[i..=i]).map_err(|e| format!("document {i} alone: {e}\n{p:?}"))?;
        debug_assert_eq!(v.len(), 1);
    }
    Ok(())
}

/// Texts that look like marks inside a document.
fn marks(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = *src.pick(&["---", "..."]);
    let t = *src.pick(&["", "a", "-", ".", " a"]);
    let w = format!("{m}{t}");
    let nl = line_end(src);
    let glued = !t.is_empty() && !t.starts_with(' ');
    let (doc, exp): (String, Vec<Val>) = match src.below(9) {
        0 => (format!("k: '{w}'\n"), vec![Val::Map(vec![(Val::s("k"), Val::s(&w))])]),
        1 => (format!("\"{w}\"\n"), vec![Val::s(&w)]),
        2 => (format!("k: |\n  {w}\n  b\nz: 1\n"), vec![Val::Map(vec![(Val::s("k"), Val::Str(format!("{w}\nb\n"))), (Val::s("z"), Val::Int(1))])]),
        3 => (format!("a # {w}\n"), vec![Val::s("a")]),
        4 => (format!("- b{w}\n- [c{w}]\n"), vec![Val::Seq(vec![Val::Str(format!("b{w}")), Val::Seq(vec![Val::Str(format!("c{w}"))])])]),
        5 => (format!("# {w}\nb\n"), vec![Val::s("b")]),
        6 if glued => (format!("a\n{w}\n"), vec![Val::Str(format!("a {w}"))]),
        7 => (format!("- '{w}': \"{w}\"\n"), vec![Val::Seq(vec![Val::Map(vec![(Val::s(&w), Val::s(&w))])])]),
        _ => (format!("- >-\n   {w}\n- 2\n"), vec![Val::Seq(vec![Val::Str(w.clone()), Val::Int(2)])]),
    };
    let doc = doc.replace('\n', nl);
    announce(ctx, || format!("{doc:?}"));
    ctx.nontrivial(hash_str(&doc));
    expect_rc(&doc, &exp).map(|_| ())
}

/// Content behind a document that is neither a mark nor a comment.
fn trailing(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let roots = [
        "[a]\n", "{a: b}\n", "'q'\n", "\"q\"\n", "- a\n- b\n", "k: v\n", "k:\n  - 1\n", "- - a\n", "--- |\n  t\n", "--- >-\n  t\n",
        "--- [a]\n", "&a [x]\n", "k: [a]\n", "- 'q'\n", "- |\n  t\n",
    ];
    let root = *src.pick(&roots);
    let junk = *src.pick(&["]\n", "}\n", "'q'\n", "\"q\"\n", "[x]\n", "{x: y}\n", "w\n", "w w\n", "&b w\n", "!t w\n", "%YAML 1.2\n"]);
    // What continues a collection at its own column is not trailing content.
    let dots = src.chance(1, 3);
    let doc = if dots { format!("{root}...\n{junk}") } else { format!("{root}{junk}") };
    announce(ctx, || format!("{doc:?}"));
    ctx.nontrivial(hash_str(&doc));
    reject(&doc, "content behind the document").map(|_| ())
}

/// Streams of many documents.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = many(src);
    let form = *src.pick(&["--- @\n", "---\n@\n", "--- &a @\n...\n", "---\n- @\n- &a b\n", "---\nk: @\n", "--- [@]\n# c\n", "--- @\n...\n\n"]);
    let text: String = (0..n).map(|i| form.replace('@', &format!("v{i}"))).collect();
    announce(ctx, || format!("{n} documents\n{}", text.chars().take(2000).collect::<String>()));
    ctx.nontrivial(hash_str(&text));
    let exp: Vec<Val> = (0..n)
        .map(|i| {
            let v = Val::Str(format!("v{i}"));
            match form {
                f if f.contains("- @") && f.contains("b") => Val::Seq(vec![v, Val::s("b")]),
                f if f.contains("k:") => Val::Map(vec![(Val::s("k"), v)]),
                f if f.contains('[') => Val::Seq(vec![v]),
                _ => v,
            }
        })
        .collect();
    let (got, t) = yshim::load_rc(text.as_bytes(), false).map_err(|e| format!("rejected: {e}"))?;
    diff(&exp, &to_vals(&got)?)?;
    let anchors = usize::from(form.contains("&a"));
    match t.iter().position(|t| t.len() != anchors) {
        _ if t.len() != n => Err(format!("{} anchor tables for {n} documents", t.len())),
        Some(i) => Err(format!("document {i} has {} anchors", t[i].len())),
        None => Ok(()),
    }
}

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "a stream of at least two documents, or a document with a look-alike of a mark or with trailing content, distinct by text",
        assumptions: &["every document behind another one starts with '---': bare documents behind '...' are not supported by the library"],
        targets: vec![
            Target { name: "stream", f: stream, quick: 360_000, thorough: 4_000_000, guided: 0 },
            Target { name: "wide", f: wide, quick: 1_000, thorough: 20_000, guided: 0 },
            Target { name: "marks", f: marks, quick: 60_000, thorough: 100_000, guided: 0 },
            Target { name: "trailing", f: trailing, quick: 60_000, thorough: 100_000, guided: 0 },
        ],
    }
}

//! String styles.
use super::common::*;
use crate::{doc::*, engine::*, model::*};

/// Trees full of strings in every style, with neighbours on all sides.
fn styles(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = Style { noise: src.chance(1, 3), nl: line_end(src), vary: src.chance(2, 3) };
    let cfg = Cfg { block_scalars: true, multiline: true, depth: 3, width: 3, ..Default::default() };
    let (n, text) = super::c02::gen_doc(src, cfg, st);
    announce(ctx, || format!("{text}\n{text:?}"));
    let blocks = n.count(&|d| matches!(d.body, Body::Block { .. }));
    let multi = n.count(&|d| matches!(d.body, Body::Multi(..)));
    ctx.label_if(blocks > 0, "block scalar");
    ctx.label_if(multi > 0, "multi-line flow scalar");
    ctx.label_if(st.nl == "\r\n", "CRLF");
    ctx.label_if(st.nl == "\r", "CR");
    if blocks + multi > 0 {
        ctx.nontrivial(hash_str(&text));
    }
    expect_rc(&text, &[n.val(false)]).map(|_| ())
}

/// One quoted string made of escapes, quotes, folded and escaped line breaks.
fn quoted(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let double = src.chance(2, 3);
    let nl = line_end(src);
    let (out, val) = quoted_text(src, double, nl, true);
    let multi = out.contains(['\n', '\r']);
    ctx.label_if(multi, "several lines");
    ctx.label(if double { "double" } else { "single" });
    let frames: &[(&str, &str)] = &[
        ("@\n", "r"),
        ("@", "r"),
        ("--- @\n...\n", "r"),
        ("- @\n- z\n", "s"),
        ("- - @\n  - z\n", "ss"),
        ("k: @\n", "v"),
        ("k: @\nz: 1\n", "v"),
        ("a:\n  k: @ # c\nz: 1\n", "vv"),
        ("[@, z]\n", "s"),
        ("[ @ ]\n", "s"),
        ("{k: @}\n", "v"),
        ("{k: @ , z: 1}\n", "v"),
        ("- !t &a @\n", "s"),
        ("@: v\n", "k"),
        ("? @\n: v\n", "k"),
        ("{@: v}\n", "k"),
        ("{@:v}\n", "k"),
        ("z: 1\n@ : v\n", "K"),
    ];
    let (f, path) = *src.pick(frames);
    if multi && (path == "k" || path == "K") && !f.starts_with('?') {
        ctx.discarded = true;
        return Ok(());
    }
    let doc = f.replace('\n', nl).replace('@', &out);
    announce(ctx, || format!("{doc}\n{doc:?}\nexpected {val:?}"));
    if multi || out.contains('\\') || out.contains("''") {
        ctx.nontrivial(hash_str(&doc));
    }
    let got = yshim::parse_rc(&doc).map_err(|e| format!("rejected: {e}\n expected {val:?}"))?;
    let mut v = to_val(&got[0])?;
    for c in path.chars() {
        v = match (v, c) {
            (v, 'r') => v,
            (Val::Seq(v), 's') => v[0].clone(),
            (Val::Map(m), 'v') => m[0].1.clone(),
            (Val::Map(m), 'k') => m[0].0.clone(),
            (Val::Map(m), 'K') => m[1].0.clone(),
            (v, c) => return Err(format!("no part {c} in {v:?}")),
        };
    }
    if v != Val::Str(val.clone()) {
        return Err(format!("expected {val:?}\n found    {v:?}"));
    }
    Ok(())
}

/// The text of a quoted string, with its quotes, and its value.
pub fn quoted_text(src: &mut Src, double: bool, nl: &str, breaks: bool) -> (String, String) {
    let q = if double { '"' } else { '\'' };
    let mut out = String::from(q);
    let mut val = String::new();
    let n = src.len(9);
    let n = src.big(n, 200);
    // The blanks at the end of the value that are raw spaces of this line.
    let mut raw = 0;
    let mut after_n = false;
    for _ in 0..n {
        let w = [10, 4, 3, if double { 6 } else { 0 }, if breaks { 4 } else { 0 }, if breaks && double { 3 } else { 0 }];
        let kind = src.weighted(&w);
        let was_n = std::mem::take(&mut after_n);
        match kind {
            0 | 1 => {
                let c = if kind == 0 {
                    *src.pick(&['a', 'b', 'n', 't', '0', 'é', '中', '🀄'])
                } else {
                    *src.pick(&['#', ':', '-', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '?', '%', '@', '/', '~'])
                };
                let mut s = String::from(c);
                src.stretch(&mut s, 600);
                out.push_str(&s);
                val.push_str(&s);
                raw = 0;
            }
            2 => {
                if double && src.chance(1, 2) {
                    out.push('\'');
                    val.push('\'');
                } else if double {
                    out.push_str("\\\"");
                    val.push('"');
                } else if src.chance(1, 2) {
                    out.push('"');
                    val.push('"');
                } else {
                    out.push_str("''");
                    val.push('\'');
                }
                raw = 0;
            }
            3 => {
                let (e, c) = *src.pick(&[
                    ("\\\\", '\\'),
                    ("\\n", '\n'),
                    ("\\t", '\t'),
                    ("\\r", '\r'),
                    ("\\b", '\u{8}'),
                    ("\\f", '\u{c}'),
                    ("\\\"", '"'),
                    ("\\/", '/'),
                    ("\\ ", ' '),
                ]);
                // An escaped blank at a line end is outside the domain.
                let (e, c) = if c == ' ' { ("\\\\", '\\') } else { (e, c) };
                out.push_str(e);
                val.push(c);
                raw = 0;
                after_n = e == "\\n";
            }
            4 => {
                if was_n {
                    // The library drops the fold behind an escaped newline.
                    out.push('w');
                    val.push('w');
                    raw = 0;
                }
                let k = src.weighted(&[4, 2, 1]);
                let k = src.big(k, 60);
                val.truncate(val.len() - raw);
                raw = 0;
                if src.chance(1, 8) {
                    out.push_str(*src.pick(&["\t", " \t", "\t  "]));
                }
                for _ in 0..=k {
                    out.push_str(nl);
                    if src.chance(1, 4) {
                        out.push_str(*src.pick(&["   ", "\t", "  \t "]));
                    }
                }
                if k == 0 {
                    val.push(' ');
                } else {
                    val.push_str(&"\n".repeat(k));
                }
                let ind = src.range(4, 7);
                out.push_str(&" ".repeat(ind));
                if src.chance(1, 6) {
                    out.push('\t');
                }
                // Two folds in a row would only be one with empty lines.
                out.push('x');
                val.push('x');
            }
            _ => {
                out.push('\\');
                out.push_str(nl);
                let ind = src.range(4, 7);
                out.push_str(&" ".repeat(ind));
                if src.chance(1, 6) {
                    out.push('\t');
                }
                out.push('y');
                val.push('y');
                raw = 0;
            }
        }
        if src.chance(1, 5) {
            let k = src.range(1, 2);
            let k = src.big(k, 100);
            let blank = if src.chance(1, 5) { "\t" } else { " " };
            out.push_str(&blank.repeat(k));
            val.push_str(&blank.repeat(k));
            raw += k;
        }
    }
    out.push(q);
    (out, val)
}

/// One block scalar between two neighbours, at some depth.
fn block(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let nl = line_end(src);
    let literal = src.chance(1, 2);
    let chomp = *src.pick(&[Chomp::Clip, Chomp::Strip, Chomp::Keep]);
    let parents = src.range(0, 4);
    let parents = src.big(parents, 40);
    let mut doc = String::new();
    let mut col = 0;
    let mut wrap = vec![];
    let mut min = 0;
    // Nest the scalar under sequences and maps, compactly or on new lines.
    for i in 0..parents {
        let seq = src.chance(1, 2);
        let last = i + 1 == parents;
        wrap.push(seq);
        doc.push_str(if seq { "-" } else { "k:" });
        min = col + 1;
        if last {
            doc.push(' ');
        } else if seq && src.chance(1, 2) {
            doc.push(' ');
            col += 2;
        } else {
            doc.push_str(nl);
            let k = src.range(1, 3);
            col += src.big(k, 40);
            doc.push_str(&" ".repeat(col));
        }
    }
    if parents == 0 {
        doc.push_str("--- ");
    }
    doc.push(if literal { '|' } else { '>' });
    doc.push_str(match chomp {
        Chomp::Clip => "",
        Chomp::Strip => "-",
        Chomp::Keep => "+",
    });
    doc.push_str(*src.pick(&["", "", "", " ", " # c", "  # : x"]));
    doc.push_str(nl);
    let k = src.range(0, 4);
    let ind = min + src.big(k, 60);
    let n = src.range(1, 6);
    let n = src.big(n, 60);
    // Without any line there is no content.
    let n = if src.chance(1, 10) { 0 } else { n };
    let lead = if src.chance(1, 6) { src.range(1, 3) } else { 0 };
    let mut lines: Vec<(usize, String)> = vec![];
    for i in 0..n {
        if i < lead.min(n - 1) || i > 0 && i + 1 < n && src.chance(1, 3) {
            lines.push((0, String::new()));
            continue;
        }
        let t = {
            let mut g = gen(src, Cfg::default());
            let t = g.line_text(8);
            let t = if g.src.chance(1, 5) { format!("{}{t}", g.src.pick(&["# ", "- ", "k: ", "'", "\"", "[", "&a ", "| "])) } else { t };
            t.trim_matches(|c: char| blank(c) || c == '\u{feff}').to_string()
        };
        let mut t = if t.is_empty() { "t".into() } else { t };
        if ind == 0 && (t.starts_with("---") || t.starts_with("...")) {
            t.insert(0, 't');
        }
        let seen = lines.iter().any(|l| !l.1.is_empty());
        let e = if seen && src.chance(1, 4) { src.range(1, 3) } else { 0 };
        lines.push((e, t));
    }
    let first = lines.iter().position(|l| !l.1.is_empty()).unwrap_or(0);
    for (i, (e, t)) in lines.iter().enumerate() {
        if t.is_empty() {
            if literal && i > first && src.chance(1, 8) {
                // The blanks behind the indentation are content.
                let k = src.range(1, 3);
                doc.push_str(&" ".repeat(ind + k));
            } else if src.chance(1, 3) {
                // A blank line may have up to the indentation in spaces.
                let k = src.range(0, ind);
                doc.push_str(&" ".repeat(k));
            }
        } else {
            doc.push_str(&" ".repeat(ind + e));
            doc.push_str(t);
            if src.chance(1, 8) {
                // Spaces behind the text are content.
                doc.push_str(*src.pick(&["  ", " ", "\t", " \t"]));
            }
        }
        doc.push_str(nl);
    }
    let tail = src.weighted(&[3, 1, 1]);
    let tail = src.big(tail, 60);
    for _ in 0..tail {
        if src.chance(1, 4) {
            let k = src.range(0, if n == 0 { ind + 4 } else { ind });
            doc.push_str(&" ".repeat(k));
        }
        doc.push_str(nl);
    }
    let value = value_of(&doc, nl, literal, chomp, ind, tail);
    // Neighbour behind the scalar, or the end in one of its forms.
    let mut after: Option<bool> = None;
    match src.below(5) {
        0 if parents > 0 => {
            // At the column of the outermost collection.
            doc.push_str(if wrap[0] { "- z" } else { "z: 1" });
            doc.push_str(nl);
            after = Some(wrap[0]);
        }
        1 => {
            doc.push_str("...");
            doc.push_str(nl);
        }
        2 if chomp != Chomp::Keep && tail == 0 && n > 0 => {
            // No line break at the end of the document.
            let l = doc.len() - nl.len();
            doc.truncate(l);
        }
        3 if parents > 0 => {
            doc.push_str("# end");
            doc.push_str(nl);
        }
        _ => {}
    }
    announce(ctx, || format!("{doc}\n{doc:?}\nexpected {value:?}"));
    ctx.label(if literal { "literal" } else { "folded" });
    ctx.nontrivial(hash_str(&doc));
    let mut v = Val::Str(value);
    for (i, seq) in wrap.iter().enumerate().rev() {
        let extra = i == 0 && after.is_some();
        v = if *seq {
            let mut s = vec![v];
            if extra {
                s.push(Val::s("z"));
            }
            Val::Seq(s)
        } else {
            let mut m = vec![(Val::s("k"), v)];
            if extra {
                m.push((Val::s("z"), Val::Int(1)));
            }
            Val::Map(m)
        };
    }
    expect_rc(&doc, &[v]).map(|_| ())
}

/// The value of the block scalar that ends the document text, read back from
/// the lines below its header.
fn value_of(doc: &str, nl: &str, literal: bool, chomp: Chomp, ind: usize, tail: usize) -> String {
    let all: Vec<&str> = doc.split(nl).collect();
    let head = all
        .iter()
        .position(|l| {
            let l = l.split(" #").next().unwrap().trim_end();
            l.ends_with(['|', '>']) || l.ends_with("|-") || l.ends_with("|+") || l.ends_with(">-") || l.ends_with(">+")
        })
        .expect("header");
    let body = &all[head + 1..all.len() - 1 - tail];
    let lines: Vec<(usize, String)> = body
        .iter()
        .map(|l| {
            if l.trim_matches(' ').is_empty() && l.len() <= ind {
                (0, String::new())
            } else {
                (0, if literal { l[ind..].to_string() } else { l.trim_start_matches(' ').to_string() })
            }
        })
        .collect();
    block_value(literal, chomp, &lines, tail)
}

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "a document with a block scalar, a multi-line flow scalar, or a quoted string with escapes or line breaks, distinct by text",
        assumptions: &[
            "malformed and unknown escapes (`\\q`, `\\xZZ`, lone surrogates) keep their character in this library and are not generated",
            "folded scalars follow the rule its test suite fixes: lines are joined with a space without their extra indentation, n empty lines are n newlines",
            "block scalars with an indentation indicator are not supported and not generated",
        ],
        targets: vec![
            Target { name: "styles", f: styles, quick: 450_000, thorough: 5_000_000, guided: 0 },
            Target { name: "quoted", f: quoted, quick: 600_000, thorough: 6_000_000, guided: 20 },
            Target { name: "block", f: block, quick: 600_000, thorough: 6_000_000, guided: 20 },
        ],
    }
}

//! Layout and style carry no data.
use super::common::*;
use crate::{doc::*, engine::*, model::*};

fn fold(src: &mut Src, s: &str, q: u8) -> Option<Body> {
    // Words are what single spaces and line breaks separate.
    let mut words = vec![String::new()];
    let mut breaks = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ' ' => {
                breaks.push(src.below(2) as usize);
                words.push(String::new());
            }
            '\n' => {
                let mut n = 2;
                while it.next_if_eq(&'\n').is_some() {
                    n += 1;
                }
                breaks.push(n);
                words.push(String::new());
            }
            c => words.last_mut().unwrap().push(c),
        }
    }
    let ok = |i: usize, w: &String| {
        !w.is_empty()
            && w.chars().all(|c| !blank(c) && !c.is_control() && c != '\u{feff}' && c != '\\' && c != q as char)
            && !w.starts_with("---")
            && !w.starts_with("...")
            && (q != 0 || (plain_ok(w, false) && !w.contains([':', '#'])))
            && (i > 0 || q != 0 || !looks_numeric(w))
    };
    if breaks.is_empty() || !words.iter().enumerate().all(|(i, w)| ok(i, w)) {
        return None;
    }
    if q == 0 && !breaks.iter().any(|b| *b > 0) {
        return None;
    }
    Some(Body::Multi(q, Folded { words, breaks }))
}

fn literal(src: &mut Src, s: &str) -> Option<Body> {
    let body = s.trim_end_matches('\n');
    let tail = s.len() - body.len();
    let ok = |t: &&str| !t.starts_with(blank) && !t.ends_with(blank) && !t.chars().any(|c| c.is_control() || c == '\u{feff}');
    let lines: Vec<&str> = body.split('\n').collect();
    if body.is_empty() || lines[0].is_empty() || !lines.iter().all(|t| ok(&t)) || lines.iter().any(|l| l.starts_with("---") || l.starts_with("...")) {
        return None;
    }
    let (chomp, tail) = match tail {
        0 => (Chomp::Strip, src.below(2) as usize),
        1 => (*src.pick(&[Chomp::Clip, Chomp::Keep]), 0),
        n => (Chomp::Keep, n - 1),
    };
    Some(Body::Block { literal: true, chomp, lines: lines.iter().map(|t| (0, t.to_string())).collect(), tail })
}

/// How a node may be written.
#[derive(Clone, Copy, PartialEq)]
enum Place {
    Block,
    Key,
    Flow,
    FlowKey,
}

fn write(src: &mut Src, v: &Val, at: Place, tags: bool) -> DNode {
    let flow = matches!(at, Place::Flow | Place::FlowKey);
    let body = match v {
        Val::Null => {
            if matches!(at, Place::Block) && src.chance(1, 3) {
                Body::Empty
            } else {
                Body::Plain(src.pick(&["~", "null", "Null", "NULL"]).to_string())
            }
        }
        Val::Bool(true) => Body::Plain(src.pick(&["true", "True", "TRUE"]).to_string()),
        Val::Bool(false) => Body::Plain(src.pick(&["false", "False", "FALSE"]).to_string()),
        Val::Int(i) => Body::Plain(match src.below(4) {
            1 if *i >= 0 => format!("0x{i:x}"),
            2 if *i >= 0 => format!("0o{i:o}"),
            3 if *i >= 0 => format!("0{i}"),
            _ => i.to_string(),
        }),
        Val::Big(s) => Body::Plain(s.clone()),
        Val::Float(f) if f.is_nan() => Body::Plain(src.pick(&[".nan", ".NaN", ".NAN"]).to_string()),
        Val::Float(f) if f.is_infinite() => {
            Body::Plain(format!("{}{}", if *f < 0. { "-" } else { "" }, src.pick(&[".inf", ".Inf", ".INF"])))
        }
        Val::Float(f) => Body::Plain(match src.below(4) {
            0 => format!("{f:e}"),
            1 => format!("{f:E}"),
            2 => {
                let s = format!("{f:?}");
                s.clone() + if s.contains('e') { "" } else { "00" }
            }
            _ => {
                let s = f.to_string();
                if s.contains('.') { s } else { s + "." }
            }
        }),
        Val::Str(s) => {
            let line = !s.chars().any(|c| c == '\n' || c == '\r');
            let plain = line && plain_ok(s, flow) && resolve(s) == *v && !looks_numeric(s) && !s.chars().any(|c| c.is_control() && c != '\t');
            let picked = match src.below(6) {
                0 | 1 if plain => Some(Body::Plain(s.clone())),
                2 if line => Some(Body::Single(s.clone())),
                3 if at == Place::Block => literal(src, s),
                4 if at == Place::Block => {
                    let q = *src.pick(&[0, b'\'', b'"']);
                    fold(src, s, q)
                }
                _ => None,
            };
            picked.unwrap_or_else(|| {
                let w = s.chars().map(|_| if src.chance(1, 6) { 3 + src.below(6) as u8 } else { src.below(3) as u8 }).collect();
                Body::Double(s.clone(), w)
            })
        }
        Val::Seq(x) => {
            if !x.is_empty() && at == Place::Block && src.chance(2, 3) {
                Body::Seq(x.iter().map(|v| write(src, v, Place::Block, tags)).collect())
            } else {
                Body::FlowSeq(x.iter().map(|v| write(src, v, Place::Flow, tags)).collect())
            }
        }
        Val::Map(m) => {
            if !m.is_empty() && at == Place::Block && src.chance(2, 3) {
                Body::Map(
                    m.iter()
                        .map(|(k, v)| {
                            let p = if src.chance(1, 10) { Place::Block } else { Place::Key };
                            (write(src, k, p, tags), write(src, v, Place::Block, tags))
                        })
                        .collect(),
                )
            } else {
                Body::FlowMap(m.iter().map(|(k, v)| (write(src, k, Place::FlowKey, tags), write(src, v, Place::Flow, tags))).collect())
            }
        }
        Val::Alias(_) => unreachable!(),
    };
    let mut n = DNode::new(body);
    // Tags and anchors are no data either.
    if tags && at == Place::Block && src.chance(1, 6) {
        n.tag = Some(("!t".into(), "t".into()));
    }
    if tags && at == Place::Block && src.chance(1, 6) {
        n.anchor = Some(String::new());
        n.anchor_first = src.chance(1, 2);
    }
    n
}

/// Names the anchors.
fn name(n: &mut DNode, count: &mut usize) {
    if let Some(a) = &mut n.anchor {
        *a = format!("a{count}");
        *count += 1;
    }
    match &mut n.body {
        Body::FlowSeq(v) | Body::Seq(v) => v.iter_mut().for_each(|n| name(n, count)),
        Body::FlowMap(m) | Body::Map(m) => m.iter_mut().for_each(|(k, v)| {
            name(k, count);
            name(v, count)
        }),
        _ => {}
    }
}

fn styles(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { block_scalars: true, multiline: true, ..Cfg::default() };
    let depth = src.range(1, 4);
    let v = gen(src, cfg).block_node(depth, true).val(false);
    let mut texts = vec![];
    let mut nodes = vec![];
    for _ in 0..2 {
        let tags = src.chance(1, 3);
        let mut n = write(src, &v, Place::Block, tags);
        name(&mut n, &mut 0);
        let st = style(src);
        texts.push(super::c02::render(src, &n, st));
    }
    announce(ctx, || format!("{}\n=====\n{}\n{:?}\n{:?}", texts[0], texts[1], texts[0], texts[1]));
    if texts[0] != texts[1] && v.depth() > 0 {
        ctx.nontrivial(hash_str(&texts.concat()));
    }
    for t in &texts {
        let mut r = expect_rc(t, std::slice::from_ref(&v))?;
        nodes.push(r.remove(0));
    }
    if !yshim::eq_rc(&nodes[0], &nodes[1]) {
        return Err("the nodes are not equal".into());
    }
    if yshim::hash_rc(&nodes[0]) != yshim::hash_rc(&nodes[1]) {
        return Err("the hashes differ".into());
    }
    Ok(())
}

/// Edits that leave the data alone, on documents whose scalars take one line.
fn edits(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { anchors: src.chance(1, 4), tags: src.chance(1, 4), ..Cfg::default() };
    let st = Style { nl: "\n", ..style(src) };
    let (n, text) = super::c02::gen_doc(src, cfg, st);
    let mut lines: Vec<String> = text.lines().map(String::from).collect();
    let k = src.range(1, 6);
    let mut log = vec![];
    for _ in 0..k {
        let at = src.usize(lines.len() + 1);
        let sp = " ".repeat(src.range(1, 8));
        match src.below(6) {
            0 => {
                lines.insert(at, if src.chance(1, 2) { String::new() } else { sp });
                log.push("blank line");
            }
            1 => {
                let c = *src.pick(&["#", "# c", "#c: d", "# - x", "# \"", "# ]", "#---"]);
                let s = if src.chance(1, 2) { String::new() } else { sp };
                lines.insert(at, s + c);
                log.push("comment line");
            }
            2 if at < lines.len() => {
                lines[at].push_str(&sp);
                log.push("trailing spaces");
            }
            3 | 4 if at < lines.len() => {
                let c = *src.pick(&["#", "# c", "# a: b", "#- x", "# '", "# }", "# &x *y"]);
                // Behind a comment this extends the comment.
                lines[at].push_str(&sp);
                lines[at].push_str(c);
                log.push("comment");
            }
            5 if !lines.iter().any(|l| l.starts_with("---") || l.starts_with('%')) => {
                lines.insert(0, "---".into());
                log.push("document mark");
            }
            _ => {}
        }
    }
    let nl = line_end(src);
    let mut edited = lines.join(nl);
    // A last line that consists of spaces belongs to a break, too.
    if src.chance(3, 4) || lines.last().is_some_and(|l| l.trim().is_empty()) {
        edited.push_str(nl);
    }
    announce(ctx, || format!("{edited}\n{edited:?}\nfrom {text:?}\n{log:?}"));
    if edited != text {
        ctx.nontrivial(hash_str(&edited));
    }
    for l in log {
        ctx.label(l);
    }
    let want = n.val(false);
    let a = expect_rc(&text, std::slice::from_ref(&want))?;
    let b = expect_rc(&edited, std::slice::from_ref(&want)).map_err(|e| format!("after the edit: {e}"))?;
    if !yshim::eq_rc(&a[0], &b[0]) || yshim::hash_rc(&a[0]) != yshim::hash_rc(&b[0]) {
        return Err("the nodes are not equal".into());
    }
    Ok(())
}

/// LF, CRLF and mixtures of both, on every style.
fn breaks(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { block_scalars: true, multiline: true, anchors: src.chance(1, 4), tags: src.chance(1, 4), ..Cfg::default() };
    let st = Style { nl: "\n", ..style(src) };
    let (n, text) = super::c02::gen_doc(src, cfg, st);
    // CRLF; LF and CRLF; CR; CR and CRLF.
    let kind = src.below(4);
    let mut edited = String::new();
    for c in text.chars() {
        if c != '\n' {
            edited.push(c);
            continue;
        }
        let more = src.chance(1, 2);
        edited.push_str(match kind {
            0 => "\r\n",
            1 if more => "\n",
            1 => "\r\n",
            3 if more => "\r\n",
            _ => "\r",
        });
    }
    announce(ctx, || format!("{edited}\n{edited:?}"));
    if edited != text {
        ctx.nontrivial(hash_str(&edited));
    }
    ctx.label_if(kind % 2 == 1, "mixed");
    ctx.label_if(kind > 1, "CR");
    let want = n.val(false);
    let a = expect_rc(&text, std::slice::from_ref(&want))?;
    let b = expect_rc(&edited, std::slice::from_ref(&want)).map_err(|e| format!("with other line ends: {e}"))?;
    if !yshim::eq_rc(&a[0], &b[0]) || yshim::hash_rc(&a[0]) != yshim::hash_rc(&b[0]) {
        return Err("the nodes are not equal".into());
    }
    Ok(())
}

/// Comments hold any bytes.
fn bytes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { anchors: src.chance(1, 4), tags: src.chance(1, 4), ..Cfg::default() };
    let st = Style { nl: "\n", ..style(src) };
    let (n, text) = super::c02::gen_doc(src, cfg, st);
    let nl = line_end(src);
    let mut edited = vec![];
    for line in text.lines() {
        for own in [true, false] {
            if !own {
                edited.extend(line.as_bytes());
            }
            if src.chance(1, 4) {
                let sp = src.range(usize::from(!own), 4);
                edited.extend(" ".repeat(sp).as_bytes());
                edited.push(b'#');
                for _ in 0..src.len(6) {
                    match src.below(3) {
                        0 => edited.push(*src.pick(b" #a\t\0\x7f\x1b\x0b\x0c")),
                        1 => edited.extend(src.pick(&["é", "\u{85}", "\u{2028}", "\u{feff}", "🀄"]).as_bytes()),
                        _ => edited.push(src.range(128, 255) as u8),
                    }
                }
                if own {
                    edited.extend(nl.as_bytes());
                }
            }
        }
        edited.extend(nl.as_bytes());
    }
    announce(ctx, || format!("{}\nfrom {text:?}", edited.escape_ascii()));
    if edited != text.as_bytes() {
        ctx.nontrivial(hash_str(&edited.escape_ascii().to_string()));
    }
    let want = n.val(false);
    let a = expect_rc(&text, std::slice::from_ref(&want))?;
    let (b, _) = yshim::load_rc(&edited, false).map_err(|e| format!("rejected: {e}\n expected {want:?}"))?;
    diff(&[want], &to_vals(&b)?).map_err(|e| format!("with the comments: {e}"))?;
    if !yshim::eq_rc(&a[0], &b[0]) || yshim::hash_rc(&a[0]) != yshim::hash_rc(&b[0]) {
        return Err("the nodes are not equal".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "two different texts of the same data, distinct by text",
        assumptions: &["edits that are not allowed within a multi-line scalar are made to documents without one"],
        targets: vec![
            Target { name: "styles", f: styles, quick: 300_000, thorough: 3_000_000, guided: 0 },
            Target { name: "edits", f: edits, quick: 300_000, thorough: 3_000_000, guided: 0 },
            Target { name: "bytes", f: bytes, quick: 120_000, thorough: 1_500_000, guided: 0 },
            Target { name: "breaks", f: breaks, quick: 180_000, thorough: 1_500_000, guided: 0 },
        ],
    }
}

//! Positions of nodes and errors.
use super::common::*;
use crate::{doc::*, engine::*, model::*};
use yaml_peg::{indicated_msg, indicated_msg_file};

/// The reference for the indicated message: line, column, the line and a caret.
pub fn indicated(doc: &[u8], pos: u64) -> String {
    let pos = (pos as usize).min(doc.len());
    let before = &doc[..pos];
    let line = before.iter().filter(|c| **c == b'\n').count();
    let start = before.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    let end = doc[start..].iter().position(|c| *c == b'\n').map_or(doc.len(), |i| start + i);
    let text = String::from_utf8_lossy(&doc[start..end]);
    let col = pos - start;
    format!("{}:{}\n{text}\n{}^", line + 1, col + 1, " ".repeat(col))
}

/// The offset that a message of the parser points to.
fn offset_of(doc: &str, msg: &str) -> Result<usize, String> {
    let head = msg.lines().next().unwrap_or("");
    let (l, c) = head.split_once(':').ok_or_else(|| format!("no position in {msg:?}"))?;
    let (l, c): (usize, usize) = match (l.parse(), c.parse()) {
        (Ok(l), Ok(c)) if l >= 1 && c >= 1 => (l, c),
        _ => return Err(format!("no position in {msg:?}")),
    };
    let start: usize = doc.split_inclusive('\n').take(l - 1).map(str::len).sum();
    let o = start + c - 1;
    if o > doc.len() || indicated(doc.as_bytes(), o as u64) != msg {
        return Err(format!("the message does not show a place of the document: {msg:?}"));
    }
    Ok(o)
}

fn nodes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let k = src.weighted(&[4, 2, 1]) + 1;
    let mut r = Ren::new(src, st);
    r.noise();
    let mut trees = vec![];
    for i in 0..k {
        let cfg = Cfg {
            tags: r.src.chance(1, 3),
            anchors: r.src.chance(1, 3),
            block_scalars: r.src.chance(1, 2),
            multiline: r.src.chance(1, 3),
            ..Cfg::default()
        };
        let depth = r.src.range(0, 4);
        let n = gen(r.src, cfg).block_node(depth, true);
        let marker = i > 0 || matches!(n.body, Body::Block { .. }) || r.src.chance(1, 3);
        r.root(&n, marker);
        trees.push(n);
    }
    let text = r.out;
    announce(ctx, || format!("{text}\n{text:?}"));
    let exp: Vec<Val> = trees.iter().map(|n| n.val(false)).collect();
    let got = expect_rc(&text, &exp)?;
    let mut count = 0;
    for (d, n) in trees.iter().zip(&got) {
        zip(d, n, &mut |d, n| {
            count += 1;
            match d.pos.get() {
                Pos::At(p) if n.pos() == p as u64 => Ok(()),
                Pos::Within(a, b) if (a as u64..=b as u64).contains(&n.pos()) => Ok(()),
                p => Err(format!("{n:?} is at {}, expected {p:?}", n.pos())),
            }
        })?;
    }
    if count > 3 {
        ctx.nontrivial(hash_str(&text));
    }
    Ok(())
}

fn plant(n: &mut DNode, at: &mut usize) -> bool {
    match &mut n.body {
        Body::Plain(s) => {
            if *at == 0 {
                *s = "ZZBAD".into();
                n.tag = None;
                n.anchor = None;
                return true;
            }
            *at -= 1;
            false
        }
        Body::FlowSeq(v) | Body::Seq(v) => v.iter_mut().any(|n| plant(n, at)),
        Body::FlowMap(m) | Body::Map(m) => m.iter_mut().any(|(_, v)| plant(v, at)),
        _ => false,
    }
}

/// One fault at a known place in an otherwise good document.
fn errors(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let cfg = Cfg { tags: true, block_scalars: src.chance(1, 2), multiline: src.chance(1, 3), ..Cfg::default() };
    let depth = src.range(1, 4);
    let mut n = gen(src, cfg).block_node(depth, true);
    let mut at = src.usize(4);
    if !plant(&mut n, &mut at) {
        let key = DNode::new(Body::Plain("k".into()));
        n = DNode::new(Body::Map(vec![(key, DNode::new(Body::Plain("ZZBAD".into())))]));
    }
    let mut r = Ren::new(src, st);
    r.noise();
    let pre = r.src.chance(1, 4);
    if pre {
        r.root(&DNode::new(Body::Plain("first".into())), false);
    }
    let marker = pre || r.src.chance(1, 3);
    r.root(&n, marker);
    let text = r.out;
    fault_in(src, ctx, &text)
}

/// A fault where the text has its mark.
fn fault_in(src: &mut Src, ctx: &mut Ctx, text: &str) -> Result<(), String> {
    // The fault, and the range of the reported place relative to its start.
    let (fault, what, a, b) = *src.pick(&[
        ("*zzz", "anchor referenced before definition", 1, 4),
        ("!zzz!t v", "tag prefix", 0, 6),
        ("[a}", "flow sequence terminator", 2, 3),
        ("{a: b]", "flow map terminator", 5, 6),
        ("{a]", "flow map splitter", 2, 3),
        ("[&zz a, &zz b]", "duplicated anchor definition", 8, 13),
        ("[&zz a, *zy]", "anchor referenced before definition", 9, 11),
        ("[中, *zy]", "anchor referenced before definition", 7, 9),
        ("&zz {a: &zz b}", "duplicated anchor definition", 8, 14),
    ]);
    let s = text.find("ZZBAD").ok_or("the fault was not written")?;
    let doc = text.replace("ZZBAD", fault);
    announce(ctx, || if doc.len() < 4000 { format!("{doc}\n{doc:?}") } else { format!("... {:?}", doc.chars().rev().take(300).collect::<Vec<_>>().iter().rev().collect::<String>()) });
    ctx.label(what);
    ctx.nontrivial(hash_str(&doc));
    let e = reject(&doc, what)?;
    let (name, msg) = perr(&e);
    if name != what {
        return Err(format!("expected the error {what:?}, found {name:?} at\n{msg}"));
    }
    let o = offset_of(&doc, &msg)?;
    // Blanks behind the fault may be consumed.
    let blanks = doc[s + b..].bytes().take_while(|c| matches!(c, b' ' | b'\t')).count();
    if o < s + a || o > s + b + blanks {
        return Err(format!("the fault is at {s}..{}, reported at {o}\n{msg}", s + fault.len()));
    }
    let shown = e.to_string();
    if !shown.contains(&msg) || !shown.contains(&name) {
        return Err(format!("the displayed error lacks its name or place: {shown:?}"));
    }
    Ok(())
}

/// Places behind many lines or in a long line.
fn far(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = many(src);
    let nl = line_end(src);
    let (part, tail) = *src.pick(&[
        ("- a|", "- ZZBAD|"),
        ("- é: 1|", "- ZZBAD|"),
        ("|", "- ZZBAD|"),
        ("# c|", "ZZBAD|"),
        ("#|", "k: ZZBAD|"),
        (" \t|", "k:   ZZBAD|"),
        ("a, ", "ZZBAD]|"),
        ("中,", "ZZBAD]|"),
        ("a,|", "ZZBAD]|"),
        ("  x|", "b: ZZBAD|"),
        ("|x", "\"|b: ZZBAD|"),
        ("---|a|", "---|- ZZBAD|"),
        (" ", "ZZBAD|"),
    ]);
    let start = match (part, tail) {
        (_, "ZZBAD]|") => "[",
        ("  x|", _) => "a: >|",
        ("|x", _) => "a: \"x",
        (" ", _) => "- ",
        _ => "",
    };
    let text = [start, &part.repeat(n), tail].concat().replace('|', nl);
    if src.chance(2, 3) {
        return fault_in(src, ctx, &text);
    }
    announce(ctx, || format!("{n} times {part:?}, {tail:?}, line end {nl:?}"));
    ctx.nontrivial(hash_str(&text));
    let v = yshim::parse_rc(&text).map_err(|e| format!("rejected: {e}"))?;
    let mut last = v.last().ok_or("no document")?;
    loop {
        last = match last.yaml() {
            yaml_peg::Yaml::Seq(v) => v.last(),
            yaml_peg::Yaml::Map(m) => m.values().last(),
            _ => break,
        }
        .ok_or("an empty collection")?;
    }
    let at = text.find("ZZBAD").unwrap() as u64;
    if last.as_str() != Ok("ZZBAD") || last.pos() != at {
        return Err(format!("expected ZZBAD at {at}, found {last:?} at {}", last.pos()));
    }
    Ok(())
}

/// Any rejected text: the message shows a real place.
fn any_error(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = Cfg { tags: true, anchors: true, block_scalars: true, multiline: true, depth: 3, ..Cfg::default() };
    let st = style(src);
    let (_, text) = super::c02::gen_doc(src, cfg, st);
    let mut t: Vec<char> = text.chars().collect();
    let n = src.range(1, 3);
    for _ in 0..n {
        let i = src.usize(t.len() + 1);
        let c = *src.pick(&['[', ']', '{', '}', '"', '\'', '*', '&', '!', '\n', ' ', ':', '-', '?', 'é', '|', '%']);
        match src.below(3) {
            0 => t.insert(i.min(t.len()), c),
            1 if i < t.len() => t[i] = c,
            _ if i < t.len() => {
                t.remove(i);
            }
            _ => t.push(c),
        }
    }
    let doc: String = t.into_iter().collect();
    announce(ctx, || format!("{doc:?}"));
    match yshim::parse_rc(&doc) {
        Ok(v) => {
            // Positions stay inside the document.
            let mut worst = Ok(());
            for n in &v {
                visit(n, &mut |n| {
                    if n.pos() > doc.len() as u64 {
                        worst = Err(format!("{n:?} is at {}, behind the document", n.pos()));
                    }
                });
            }
            worst
        }
        Err(e) => {
            let (name, msg) = perr(&e);
            if name == "mismatch" {
                ctx.label("error without a place");
                return Ok(());
            }
            ctx.nontrivial(hash_str(&doc));
            offset_of(&doc, &msg).map(|_| ())
        }
    }
}

fn visit<R: yaml_peg::repr::Repr>(n: &yaml_peg::Node<R>, f: &mut dyn FnMut(&yaml_peg::Node<R>)) {
    f(n);
    match n.yaml() {
        yaml_peg::Yaml::Seq(v) => v.iter().for_each(|n| visit(n, f)),
        yaml_peg::Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            visit(k, f);
            visit(v, f)
        }),
        _ => {}
    }
}

fn message(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = src.len(40);
    let mut doc: Vec<u8> = vec![];
    for _ in 0..n {
        match src.weighted(&[6, 3, 1, 2, 1]) {
            0 => doc.push(*src.pick(b"abc: -[]")),
            1 => doc.push(b'\n'),
            2 => doc.extend(b"\r\n"),
            3 => doc.extend(src.pick(&["é", "中", "🀄"]).as_bytes()),
            _ => doc.push(*src.pick(&[0xff, 0x80, 0xc3, 0, b'\t'])),
        }
    }
    let run = if src.chance(1, 1000) { many(src) } else { src.big(0, 3000) };
    if run > 0 {
        let i = src.usize(doc.len() + 1);
        let c = *src.pick(b"ab \t\n");
        doc.splice(i..i, vec![c; run]);
    }
    let pos = match src.weighted(&[10, 1, 1]) {
        0 => src.below(doc.len() as u64 + 4),
        1 => u64::MAX - src.below(3),
        _ => (1 << 32) + src.below(8),
    };
    announce(ctx, || format!("{:?} at {pos}", String::from_utf8_lossy(&doc)));
    ctx.nontrivial(mix(hash_str(&String::from_utf8_lossy(&doc)), pos));
    let want = indicated(&doc, pos);
    let got = indicated_msg(&doc, pos);
    if want != got {
        return Err(format!("expected {want:?}\n found    {got:?}"));
    }
    let path = *src.pick(&["a/b c.yaml", "./a.yaml", "/a//b", "", " a ", "../é.yml", "C:\\a.yaml", "a:1", "a\n", "{}"]);
    let f = indicated_msg_file(path, &doc, pos);
    if f != format!("{path}:{want}") {
        return Err(format!("with a file: {f:?}"));
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "a stream with more than three nodes of known places, a rejected document, or a message request, distinct by text",
        assumptions: &["positions and columns count bytes from the start of the whole text; a collection or empty node on a new line may be placed anywhere in the layout between its header and its first entry"],
        targets: vec![
            Target { name: "nodes", f: nodes, quick: 360_000, thorough: 4_000_000, guided: 0 },
            Target { name: "errors", f: errors, quick: 360_000, thorough: 3_000_000, guided: 0 },
            Target { name: "any_error", f: any_error, quick: 300_000, thorough: 3_000_000, guided: 40 },
            Target { name: "far", f: far, quick: 1_500, thorough: 30_000, guided: 0 },
            Target { name: "message", f: message, quick: 300_000, thorough: 1_000_000, guided: 0 },
        ],
    }
}

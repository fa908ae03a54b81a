//! Totality: any input yields a result within bounded work.
use super::common::*;
use crate::{doc::*, engine::*, model::*};

const TOKENS: &[&str] = &[
    "a", "b", "k", "1", "-1", "0x1f", "0o7", "1.5", "1e3", ".inf", "~", "null", "true", "é", "中", "-", "- ", "-\n", "? ", "?", ": ", ":", ":\n",
    ", ", ",", "[", "]", "{", "}", "[]", "{}", "'", "''", "\"", "\\", "\\n", "\\\"", "\n", "\n", "\n  ", "\n    ", " ", "  ", "\r\n", "\r", "\t",
    "|", "|\n", "|-\n  ", "|+\n ", ">", ">\n  ", "#", " # c\n", "&a ", "*a", "&a", "*a ", "!", "!t ", "!!s ", "!<t> ", "!h!x ", "---", "---\n", "\n---\n",
    "...", "\n...\n", "%", "%YAML 1.2\n", "%TAG !h! p\n", "@", "`", "=", "<<", "\0", "\u{feff}", "\u{2028}", "\u{85}", "\u{a0}",
];

/// Edges of the parser that a document of this size may execute.
fn budget(len: usize) -> u64 {
    let n = len as u64 + 32;
    100 * n * n
}

fn total(bytes: &[u8]) -> Result<Option<usize>, String> {
    let f0 = fuel_used();
    let direct = yshim::load_rc(bytes, false);
    let f1 = fuel_used();
    let cyclic = yshim::load_rc(bytes, true);
    let f2 = fuel_used();
    let again = yshim::load_rc(bytes, false);
    for w in [f1 - f0, f2 - f1] {
        if w > budget(bytes.len()) {
            return Err(format!("{w} edges executed for {} bytes", bytes.len()));
        }
    }
    match (&direct, &again) {
        (Ok((a, _)), Ok((b, _))) if a == b => {}
        (Err(a), Err(b)) if a.to_string() == b.to_string() && format!("{a:?}") == format!("{b:?}") => {}
        (a, b) => return Err(format!("not deterministic: {a:?} and {b:?}")),
    }
    match (&direct, &cyclic) {
        (Ok((a, ta)), Ok((b, tb))) => {
            if a.len() != b.len() || ta.len() != a.len() || tb.len() != b.len() {
                return Err(format!("{} and {} documents, {} and {} anchor tables", a.len(), b.len(), ta.len(), tb.len()));
            }
        }
        (Ok(_), Err(e)) => return Err(format!("only cyclic mode rejects: {e}")),
        _ => {}
    }
    if let Ok(s) = std::str::from_utf8(bytes) {
        match (&direct, yshim::parse_rc(s)) {
            (Ok((a, _)), Ok(b)) if *a == b => {}
            (Err(a), Err(b)) if a.to_string() == b.to_string() => {}
            (a, b) => return Err(format!("parse and Loader disagree: {a:?} and {b:?}")),
        }
    }
    if let Ok((v, t)) = &cyclic {
        // Everything that only looks at the nodes is total as well.
        for n in v {
            yshim::debug_rc(n);
            yshim::hash_rc(n);
        }
        if bytes.len() < 400 {
            yshim::dump_rc(v, t);
        }
    }
    Ok(direct.ok().map(|d| d.0.len()))
}

fn finish(ctx: &mut Ctx, bytes: &[u8]) -> Result<(), String> {
    let shown = String::from_utf8_lossy(bytes).to_string();
    announce(ctx, || format!("{shown:?} = {bytes:?}"));
    let r = total(bytes)?;
    ctx.label(if r.is_some() { "accepted" } else { "rejected" });
    if bytes.len() > 3 {
        ctx.nontrivial(mix(hash_str(&shown), bytes.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))));
    }
    Ok(())
}

fn bytes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = src.len(60);
    let mut b: Vec<u8> = vec![];
    for _ in 0..n {
        match src.weighted(&[6, 4, 1, 1]) {
            0 => b.push(*src.pick(b"a1 :-,[]{}\n'\"\\#&*!|>%?.0x")),
            1 => b.push(src.below(128) as u8),
            2 => b.push(src.below(256) as u8),
            _ => b.extend(src.pick(&["é", "\u{fffd}", "🀄", "\u{85}"]).as_bytes()),
        }
    }
    finish(ctx, &b)
}

pub fn token_text(src: &mut Src) -> String {
    let n = 1 + src.len(40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*src.pick(TOKENS));
    }
    s
}

fn tokens(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let s = token_text(src);
    finish(ctx, s.as_bytes())
}

pub fn mutated_text(src: &mut Src) -> Vec<u8> {
    let cfg = Cfg { tags: true, anchors: true, block_scalars: true, multiline: true, depth: 3, ..Cfg::default() };
    let st = style(src);
    let (_, text) = super::c02::gen_doc(src, cfg, st);
    let mut b = text.into_bytes();
    let n = src.range(1, 4);
    for _ in 0..n {
        let i = src.usize(b.len() + 1);
        match src.below(5) {
            0 => {
                let t = src.pick(TOKENS).as_bytes().to_vec();
                b.splice(i..i, t);
            }
            1 => b.truncate(i),
            2 => {
                let e = (i + src.range(1, 6)).min(b.len());
                b.drain(i..e);
            }
            3 => {
                let e = (i + src.range(1, 12)).min(b.len());
                let c = b[i..e].to_vec();
                let at = src.usize(b.len() + 1);
                b.splice(at..at, c);
            }
            _ => {
                if i < b.len() {
                    b[i] = src.below(256) as u8;
                }
            }
        }
    }
    b
}

fn mutated(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let b = mutated_text(src);
    finish(ctx, &b)
}

/// The ways to open one nesting level, and to close it.
const NEST: &[(&str, &str)] = &[
    ("[", "]"),
    ("{a: ", "}"),
    ("- ", ""),
    ("? ", ""),
    ("[[], ", "]"),
    ("{a: [", "]}"),
    ("&x", ""),
    ("!t [", "]"),
    ("[\n", "\n]"),
    ("{[", "]: 1}"),
    ("{? ", " : 1}"),
    ("{'k': ", "}"),
    ("- - ", ""),
    ("- ? ", ""),
];

fn nest(kind: usize, d: usize, close: bool) -> String {
    match kind {
        0..=13 => {
            let (a, b) = NEST[kind];
            let mut s = a.repeat(d);
            s.push('x');
            if close {
                s.push_str(&b.repeat(d));
            }
            s
        }
        // Block structures over lines.
        14 => (0..d).map(|i| format!("{}a:\n", " ".repeat(i))).collect(),
        15 => (0..d).map(|i| format!("{}-\n", " ".repeat(i))).collect(),
        16 => (0..d).map(|i| format!("{}? a\n{}:\n", " ".repeat(i), " ".repeat(i))).collect(),
        _ => (0..d).map(|i| format!("{}- b:\n", " ".repeat(2 * i))).collect(),
    }
}
const KINDS: usize = 18;

fn on_small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    // The stack of a spawned thread, the smallest one a user normally has.
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(f)
        .map_err(|e| format!("harness: {e}"))?
        .join()
        .map_err(|e| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            format!("panic: {}", m.unwrap_or_default())
        })
}

fn deep(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let kind = src.usize(KINDS);
    let close = src.chance(1, 2);
    let big = src.chance(1, 8);
    let d = if big { src.range(200, if kind >= 14 { 700 } else { 20_000 }) } else { src.range(1, 260) };
    let mut text = nest(kind, d, close);
    if src.chance(1, 4) {
        text = format!("k:\n  - {}", nest(src.usize(14), src.range(1, 90), false)) + &text;
    }
    announce(ctx, || format!("kind {kind} depth {d} close {close}: {:.300}", text));
    ctx.label_if(d > 1000, "more than 1000 levels");
    ctx.nontrivial(mix(hash_str(&text), d as u64));
    let r = on_small_stack(move || {
        let r = yshim::load_rc(text.as_bytes(), false);
        match r {
            Ok((v, t)) => {
                let s = yshim::dump_rc(&v, &t);
                let c = v.clone();
                let eq = c.iter().zip(&v).all(|(a, b)| yshim::eq_rc(a, b));
                v.iter().for_each(|n| {
                    yshim::hash_rc(n);
                    yshim::debug_rc(n);
                });
                Ok((s.len(), eq))
            }
            Err(e) => Err(e.to_string()),
        }
    })?;
    match r {
        Ok((_, false)) => Err("a clone differs".into()),
        Ok(_) => {
            ctx.label("accepted");
            Ok(())
        }
        Err(_) => Ok(()),
    }
}

/// Moderate nesting is accepted, with the right value.
fn moderate(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let d = src.range(1, 60);
    let kinds: Vec<usize> = (0..d).map(|_| src.usize(3)).collect();
    let mut text = String::new();
    for k in &kinds {
        text.push_str(["[", "{a: ", "[b, "][*k]);
    }
    text.push('x');
    let mut v = Val::s("x");
    for k in kinds.iter().rev() {
        text.push_str(["]", "}", "]"][*k]);
        v = match k {
            0 => Val::Seq(vec![v]),
            1 => Val::Map(vec![(Val::s("a"), v)]),
            _ => Val::Seq(vec![Val::s("b"), v]),
        };
    }
    announce(ctx, || text.clone());
    ctx.nontrivial(hash_str(&text));
    expect_rc(&text, &[v])?;
    Ok(())
}

/// Work grows at most quadratically when a part of the document is repeated.
fn scale(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let piece = |src: &mut Src, n: usize| -> String { (0..src.range(1, n)).map(|_| *src.pick(TOKENS)).collect() };
    let kind = src.weighted(&[5, 3, 2]);
    let (a, u, b) = (piece(src, 4), piece(src, 4), piece(src, 4));
    let nk = src.usize(KINDS);
    let make = |n: usize| -> String {
        match kind {
            0 => format!("{a}{}{b}", u.repeat(n)),
            1 => nest(nk, n, true),
            _ => format!("{}{b}{}", a.repeat(n), u.repeat(n)),
        }
    };
    announce(ctx, || format!("kind {kind}/{nk}: {:?}", make(3)));
    let work = |n: usize| {
        fuel_limit(FUEL_PER_CASE);
        let t = make(n);
        let r = yshim::load_rc(t.as_bytes(), true);
        (fuel_used(), r.is_ok())
    };
    let (w1, _) = work(20);
    let (w2, ok) = work(80);
    ctx.label_if(ok, "accepted");
    if w2 > 20_000 {
        ctx.nontrivial(hash_str(&make(2)));
        ctx.label_if(w2 > 6 * w1, "more than linear");
    }
    // Quadratic growth would be a factor of 16.
    if w2 > 18 * w1 + 20_000 {
        return Err(format!("{w1} edges for 20 repetitions, {w2} for 80"));
    }
    Ok(())
}

/// Lines of documents that are written over and over in one collection.
const LINES: &[&str] = &[
    "- a\n", "-\n", "- a: 1\n", "- a: 1\n  b: 2\n", "- [a, {b: c}]\n", "- 'a b'\n", "- \"a\\n\"\n", "- |\n  a\n", "- >-\n  a\n  b\n", "- &a# a\n", "- *a0\n", "- !t a\n", "- # c\n  a\n", "# c\n",
    "\n", "  # c\n", "- ? a\n  : b\n", "- - a\n  - b\n", "k#: a\n", "k#:\n", "k#: {a: b}\n", "k#:\n  l: m\n", "k#:\n- a\n", "k#:\n  - a\n", "? k#\n: a\n", "? k#\n", "'k#': a\n", "k#: a\n  b\n", "k#: |+\n\n",
    "k#: 'a\n  b'\n", "a, ", "'a', ", "a,\n", "[a], ", "{a: b}, ", "k# : a, ", "'k#': a, ", "? k# : a, ", "1: 2, ", "# c\n ", "a ", "a\n", "a\n ", "\\n", "\\\n ", "''", "---\n", "--- a\n", "...\n", "--- &a a\n", "--- |\n a\n", "%U x\n",
    "%TAG !t#! x\n", "k: a\n", "é", "- é\r\n", "- a\r", "\t", " ", "  a\n", "  a\n\n",
];

/// A flat part of a document that can be repeated.
fn flat(src: &mut Src) -> (String, String, String) {
    let free = src.chance(1, 3);
    let piece = |src: &mut Src, n: usize| -> String {
        (0..src.range(1, n)).map(|_| if free { *src.pick(TOKENS) } else { *src.pick(LINES) }).collect()
    };
    let start = *src.pick(&["", "", "", "- &a0 x\n", "[", "{", "|\n", "'", "\"", "k:\n", "a\n", "%YAML 1.2\n"]);
    let start = if src.chance(1, 4) { piece(src, 2) } else { start.to_string() };
    let unit = piece(src, 3);
    let end = *src.pick(&["", "", "]", "}", "'", "\"", "x\n", "- x\n", "\n"]);
    (start, unit, end.into())
}

fn repeat((start, unit, end): &(String, String, String), n: usize) -> String {
    if unit.contains("# c") {
        return start.clone() + &unit.repeat(n) + end;
    }
    (0..n).fold(start.clone(), |s, i| s + &unit.replace('#', &i.to_string())) + end
}

/// Work grows linearly when a flat part of the document is repeated.
fn linear(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let doc = flat(src);
    announce(ctx, || format!("300 and 1200 times {:?} between {:?} and {:?}", doc.1, doc.0, doc.2));
    let work = |n: usize| {
        fuel_limit(10 * FUEL_PER_CASE);
        let t = repeat(&doc, n);
        let from = requested();
        let r = yshim::load_rc(t.as_bytes(), true);
        (fuel_used(), requested() - from, r.is_ok())
    };
    let (w1, b1, _) = work(300);
    let (w2, b2, ok) = work(1200);
    ctx.label_if(ok, "accepted");
    if w2 > 20_000 {
        ctx.nontrivial(hash_str(&repeat(&doc, 2)));
    }
    if w2 > 6 * w1 + 100_000 {
        return Err(format!("{w1} edges for 300 repetitions, {w2} for 1200"));
    }
    if b2 > 6 * b1 + 400_000 {
        return Err(format!("{b1} bytes allocated for 300 repetitions, {b2} for 1200"));
    }
    Ok(())
}

/// The time, too, for work that is neither counted by edges nor by bytes. Only
/// times far beyond linear work count.
fn time(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let doc = flat(src);
    announce(ctx, || format!("2000 and 30000 times {:?} between {:?} and {:?}", doc.1, doc.0, doc.2));
    fuel_limit(1000 * FUEL_PER_CASE);
    let mut work = |n: usize| {
        let t = repeat(&doc, n);
        let from = cpu_time();
        let r = yshim::load_rc(t.as_bytes(), true);
        ctx.label_if(r.is_ok() && n == 30_000, "accepted");
        cpu_time() - from
    };
    let long = |t: u64, t1: u64| t > 600_000 && t > 60 * t1;
    let (t1, mut t2) = (work(2_000), work(30_000));
    for _ in 0..3 {
        if long(t2, t1) {
            t2 = t2.min(work(30_000));
        }
    }
    if t2 > 5_000 {
        ctx.nontrivial(hash_str(&repeat(&doc, 2)));
    }
    if long(t2, t1) {
        return Err("the time for 30000 repetitions is more than 60 times the time for 2000".into());
    }
    Ok(())
}

/// Values that share their parts through aliases, as values and as keys.
fn sharing(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // Keys that share many parts are hashed part by part, which is exponential
    // in the number of levels (recorded in known_findings.txt): few levels only.
    let known = src.chance(1, 1 << 40);
    let as_key = known || src.chance(1, 3);
    let levels = if known { 26 } else { src.range(1, if as_key { 7 } else { 60 }) };
    let map = src.chance(1, 3);
    let mut s = String::from("- &a0 [x, 'y']\n");
    for i in 1..levels {
        let j = i - 1;
        if map {
            s.push_str(&format!("- &a{i} {{p: *a{j}, q: *a{j}}}\n"));
        } else {
            s.push_str(&format!("- &a{i} [*a{j}, *a{j}]\n"));
        }
    }
    let l = levels - 1;
    s.push_str(&if as_key { format!("- {{*a{l} : 1}}\n") } else { format!("- *a{l}\n") });
    announce(ctx, || s.clone());
    ctx.nontrivial(hash_str(&s));
    let f = fuel_used();
    let (v, t) = yshim::load_rc(s.as_bytes(), false).map_err(|e| format!("rejected: {e}"))?;
    let w = fuel_used() - f;
    if w > budget(s.len()) {
        return Err(format!("{w} edges executed for {} bytes", s.len()));
    }
    let n = v[0].as_seq().map_err(|p| format!("no sequence at {p}"))?.len();
    if n != levels + 1 || t[0].len() != levels {
        return Err(format!("{n} items and {} anchors for {levels} levels", t[0].len()));
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "an input of more than three bytes (distinct by content), a nested document (distinct by text), or a repeated document that executes more than 20000 edges of the parser",
        assumptions: &[
            "work is counted in executed edges of the instrumented library, so the verdict does not depend on the machine",
            "deep nesting is parsed on a thread with a 2 MiB stack, the default of a spawned thread",
        ],
        targets: vec![
            Target { name: "bytes", f: bytes, quick: 450_000, thorough: 6_000_000, guided: 60 },
            Target { name: "tokens", f: tokens, quick: 750_000, thorough: 10_000_000, guided: 60 },
            Target { name: "mutated", f: mutated, quick: 360_000, thorough: 4_000_000, guided: 20 },
            Target { name: "deep", f: deep, quick: 12_000, thorough: 60_000, guided: 0 },
            Target { name: "moderate", f: moderate, quick: 30_000, thorough: 100_000, guided: 0 },
            Target { name: "sharing", f: sharing, quick: 6_000, thorough: 10_000, guided: 0 },
            Target { name: "linear", f: linear, quick: 12_000, thorough: 100_000, guided: 0 },
            Target { name: "time", f: time, quick: 400, thorough: 4_000, guided: 0 },
            Target { name: "scale", f: scale, quick: 72_000, thorough: 600_000, guided: 30 },
        ],
    }
}

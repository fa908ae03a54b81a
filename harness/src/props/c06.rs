//! Tags and directives.
use super::common::*;
use std::collections::BTreeMap;
use crate::{doc::*, engine::*, model::*};

/// Directive lines and the handles they declare, in order of declaration.
pub fn directives(src: &mut Src) -> (String, Vec<(String, String)>, bool) {
    let mut out = String::new();
    let mut handles: Vec<(String, String)> = vec![];
    let mut version = false;
    let n = src.range(0, 5);
    let n = src.big(n, 60);
    for _ in 0..n {
        match src.weighted(&[5, 2, 2, 2]) {
            0 => {
                let h = match src.below(4) {
                    0 => "!".to_string(),
                    1 => "!!".to_string(),
                    _ => {
                        let i = { gen(src, Cfg::default()).ident() };
                        format!("!{i}!")
                    }
                };
                let k = src.range(1, 8);
                let k = src.big(k, 300);
                let p: String = (0..k)
                    .map(|_| *src.pick(&['t', 'a', ':', '/', '.', ',', '-', '!', '2', '0', 'é', '%', '#', '<', '>', '[']))
                    .collect();
                let gap = 1 + src.chance(1, 6) as usize;
                let gap = if src.chance(1, 8) { "\t" } else { " " }.repeat(src.big(gap, 80));
                out.push_str(&format!("%TAG{gap}{h}{gap}{p}"));
                handles.push((h, p));
            }
            1 if !version => {
                version = true;
                out.push_str(*src.pick(&["%YAML 1.2", "%YAML 1.1", "%YAML  1.2", "%YAML\t1.2"]));
            }
            1 | 2 => {
                let mut d = src.pick(&["%FOO", "%FOO bar baz", "%a b: c", "%X %YAML 3.0", "%", "%TAGS ? !x! |", "%TAGS !e! x", "%YAML1.2", "%YAML:1.2 x", "%YAML#", "%YAMLY 1.2", "%TAG!a! b", "%TAG! b", "%yaml 9", "%tag ! x", "%TA ! x", "%YAM 3", "%q \"a 'b", "%r [a {b", "%s &a *b\t"]).to_string();
                src.stretch(&mut d, 300);
                out.push_str(&d)
            }
            _ => {
                // Nothing but a comment line.
                let c = *src.pick(&["# %YAML 9", "# ? a: b", "# \"q 'r", "#\t[ {", "# &a *b | >", "# !t", "#"]);
                out.push_str(c);
            }
        }
        match src.weighted(&[6, 1, 1]) {
            0 => {}
            1 => out.push_str(*src.pick(&["  ", "\t", " \t"])),
            _ => out.push_str(*src.pick(&[" # %TAG ! no", " # ?", " # \"'|", " # &a *b [ {", "\t# \t{"])),
        }
        out.push('\n');
        if src.chance(1, 6) {
            out.push('\n');
        }
    }
    (out, handles, n > 0)
}

fn tags(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = style(src);
    let (mut text, handles, any) = directives(src);
    ctx.label_if(text.starts_with('#') || text.contains("\n#"), "comment line among the directives");
    let docs = src.weighted(&[4, 2, 1]) + 1;
    let mut trees = vec![];
    text = text.replace('\n', st.nl);
    for i in 0..docs {
        let cfg = Cfg {
            tags: true,
            anchors: src.chance(1, 3),
            block_scalars: src.chance(1, 3),
            multiline: src.chance(1, 4),
            handles: handles.clone(),
            ..Cfg::default()
        };
        let depth = src.range(0, 4);
        let n = gen(src, cfg).block_node(depth, true);
        let marker = any || i > 0 || matches!(n.body, Body::Block { .. }) || src.chance(1, 3);
        let mut r = Ren::new(src, st);
        r.root(&n, marker);
        text.push_str(&r.out);
        trees.push(n);
    }
    announce(ctx, || format!("{text}\n{text:?}"));
    let tagged: usize = trees.iter().map(|n| n.count(&|d| d.tag.is_some())).sum();
    if tagged > 0 {
        ctx.nontrivial(hash_str(&text));
    }
    ctx.label_if(any, "directives");
    ctx.label_if(
        trees.iter().any(|n| n.count(&|d| d.tag.as_ref().is_some_and(|t| handles.iter().any(|(h, _)| h.len() > 2 && t.0.starts_with(h.as_str())))) > 0),
        "named handle used",
    );
    ctx.label_if(handles.iter().any(|(h, _)| h == "!!" || h == "!"), "default handle redefined");
    let exp: Vec<Val> = trees.iter().map(|n| n.val(false)).collect();
    let got = expect_rc(&text, &exp)?;
    for (d, n) in trees.iter().zip(&got) {
        let mut anchored = BTreeMap::new();
        zip(d, n, &mut |d, n| {
            if let Some(a) = &d.anchor {
                anchored.insert(a.clone(), n.tag().to_string());
            }
            let want = match (&d.tag, &d.body) {
                (Some((_, t)), _) => t.clone(),
                // An alias is the anchored node.
                (None, Body::Alias(a, _)) => anchored[a].clone(),
                (None, _) => default_tag(&d.val(false)).to_string(),
            };
            if n.tag() != want {
                return Err(format!("the tag of {n:?} is {:?}, expected {want:?} ({:?})", n.tag(), d.tag));
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// Documents with one misuse of a directive or a tag.
fn misuse(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let id = { gen(src, Cfg::default()).ident() };
    let (dirs, handles, _) = directives(src);
    let wrap = |src: &mut Src, t: String| -> String {
        let frames = [
            "--- @ v\n",
            "---\n- @ v\n",
            "---\nk: @ v\n",
            "---\nk: [@ v]\n",
            "---\nk: {a: @ v}\n",
            "---\nk: &a @ v\n",
            "---\nk: @ &a v\n",
            "---\n- a: 1\n  b: @ v\n",
            "---\nk: @\n",
            "---\nk: @ [a]\n",
            "---\na: 1\n@ k: v\n",
        ];
        src.pick(&frames).replace('@', &t)
    };
    let (what, doc) = match src.below(7) {
        0 => {
            let h = format!("!{id}u!");
            if handles.iter().any(|(x, _)| *x == h) {
                ctx.discarded = true;
                return Ok(());
            }
            ("undefined handle", dirs.clone() + &wrap(src, format!("{h}{id}")))
        }
        1 => {
            let v1 = *src.pick(&["1.2", "1.1"]);
            let v2 = *src.pick(&["1.2", "1.1"]);
            let rest: String = dirs.lines().filter(|l| !l.starts_with("%YAML")).map(|l| format!("{l}\n")).collect();
            if src.chance(1, 2) {
                ("second %YAML", format!("%YAML {v1}\n{rest}%YAML {v2}\n---\nv\n"))
            } else {
                ("second %YAML", format!("{rest}%YAML {v1}\n%YAML {v2}\n---\nv\n"))
            }
        }
        2 => {
            let v = *src.pick(&["1.0", "1.3", "2.0", "0.1", "1", "x", "12", "", "3.2"]);
            let rest: String = dirs.lines().filter(|l| !l.starts_with("%YAML")).map(|l| format!("{l}\n")).collect();
            ("unsupported version", format!("{rest}%YAML {v}\n---\nv\n"))
        }
        3 => {
            let t = *src.pick(&["!<a b>", "!<", "!<>", "!<a", "!a b!", "!é", "!a.b", "!<a>b>", "!a!b!c"]);
            if t == "!a b!" {
                ctx.discarded = true;
                return Ok(());
            }
            ("malformed tag", dirs.clone() + &wrap(src, t.to_string()))
        }
        4 => {
            let d = *src.pick(&[
                "%YAML", "%YAML ", "%YAML\t", "%YAML 1.2 x", "%YAML 1.2 1.2", "%YAML 1.25", "%YAML 1.2.", "%YAML 1.2x", "%TAG !a!b", "%TAG !!b", "%TAG !a!tag:x,", "%TAG", "%TAG !",
                "%TAG ! ", "%TAG !a! ", "%TAG !a!", "%TAG a b", "%TAG !a b", "%TAG !a! b c", "%TAG !a! b !c! d", "%TAG !! b c", "%TAG ! b c", "%TAG !é! b",
                "%TAG !a b! c",
            ]);
            let rest: String = dirs.lines().filter(|l| !l.starts_with("%YAML")).map(|l| format!("{l}\n")).collect();
            let (a, b) = if src.chance(1, 2) { (rest.as_str(), "") } else { ("", rest.as_str()) };
            let tail = *src.pick(&["--- v\n", "---\nv\n", "v\n", "---\n- v\n", "# c\n---\nv\n"]);
            ("malformed directive", format!("{a}{d}\n{b}{tail}"))
        }
        5 => {
            let d = *src.pick(&["%YAML 1.2\n", "%YAML 1.1 # c\n", "%TAG !a! b\n", "%TAG ! b\n", "%FOO bar\n", "%FOO\n", "%Y 1.2\n# c\n\n"]);
            let rest: String = dirs.lines().filter(|l| !d.starts_with("%YAML") || !l.starts_with("%YAML")).filter(|l| !l.is_empty() && !l.starts_with("%TAG")).map(|l| format!("{l}\n")).collect();
            let tail = *src.pick(&["", "v\n", "v", "- v\n", "k: v\n", "'v'\n", "[v]\n", "|\n v\n", "...\n", "...\n---\nv\n", "v\n---\nv\n", "---v\n", "----\n", "# c\n", "\n# c\nv\n", "!a v\n", "&a v\n", "? v\n"]);
            ("directive without a document mark", format!("{rest}{d}{tail}"))
        }
        _ => {
            let t = *src.pick(&["!a !b", "!!a !b", "!a &x !b", "!a !<b>"]);
            ("two tags", dirs.clone() + &wrap(src, t.to_string()))
        }
    };
    announce(ctx, || format!("{what}\n{doc}\n{doc:?}"));
    ctx.label(what);
    ctx.nontrivial(hash_str(&doc));
    let e = reject(&doc, what)?;
    if what.starts_with("directive") {
        let (name, msg) = perr(&e);
        let line = msg.split(':').next().and_then(|l| l.parse::<usize>().ok()).unwrap_or(0);
        let last = doc.lines().take_while(|l| l.is_empty() || l.starts_with(['%', '#'])).enumerate().filter(|(_, l)| l.starts_with('%')).map(|(i, _)| i + 1).last().unwrap_or(0);
        if !name.starts_with("d") || line <= last {
            return Err(format!("expected an error behind the directive, found {name:?} at\n{msg}"));
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "a document with at least one explicit tag, or with exactly one misuse of a tag or directive, distinct by text",
        assumptions: &[
            "local tag names consist of ASCII letters, digits, '-' and '_' (the names the library supports)",
            "directives are written before the first document and hold for the whole stream, as the library documents",
        ],
        targets: vec![
            Target { name: "tags", f: tags, quick: 600_000, thorough: 5_000_000, guided: 0 },
            Target { name: "misuse", f: misuse, quick: 300_000, thorough: 1_000_000, guided: 0 },
        ],
    }
}

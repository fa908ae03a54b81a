//! Structure: a document means exactly the tree it was rendered from.
use super::common::*;
use crate::{doc::*, engine::*, model::*};

pub fn gen_doc(src: &mut Src, cfg: Cfg, st: Style) -> (DNode, String) {
    let mut g = Gen { src, cfg, defined: vec![], names: 0, deep: false };
    let depth = g.src.range(1, g.cfg.depth);
    let n = g.block_node(depth, true);
    let text = render(src, &n, st);
    (n, text)
}

pub fn render(src: &mut Src, n: &DNode, st: Style) -> String {
    let mut r = Ren::new(src, st);
    r.noise();
    let marker = r.src.chance(1, 3);
    r.root(n, marker || matches!(n.body, Body::Block { .. }));
    if r.st.noise {
        r.noise();
    }
    if r.src.chance(1, 6) {
        r.out.push_str("...");
        r.nl();
    }
    let mut s = r.out;
    if src.chance(1, 6) {
        // Without the last line break, unless that ends an empty line.
        let t = s.strip_suffix(st.nl).unwrap_or(&s);
        if !t.trim_end_matches(' ').ends_with(['\n', '\r']) {
            s.truncate(t.len());
        }
    }
    s
}

fn structure(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = Style { noise: src.chance(1, 2), nl: super::common::line_end(src), vary: src.chance(2, 3) };
    let cfg = Cfg { dups: src.chance(1, 3), ..Default::default() };
    let (n, text) = gen_doc(src, cfg, st);
    announce(ctx, || format!("{text}\n{text:?}"));
    let exp = n.val(false);
    ctx.label_if(st.noise, "comments and blank lines");
    if exp.depth() >= 2 {
        ctx.nontrivial(hash_str(&text));
    }
    let got = yshim::parse_rc(&text).map_err(|e| format!("rejected: {e}\n expected {exp:?}"))?;
    diff(&[exp], &to_vals(&got)?)
}

/// Collections of many entries.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let v = wide_val(src);
    let n = plain_node(&v, src.chance(1, 2));
    let st = Style { noise: false, nl: line_end(src), vary: false };
    let text = render(src, &n, st);
    announce(ctx, || format!("{} entries\n{}", v.size(), text.chars().take(2000).collect::<String>()));
    ctx.nontrivial(hash_str(&text));
    let got = expect_rc(&text, std::slice::from_ref(&v))?;
    // The nodes are where they were written.
    zip(&n, &got[0], &mut |d, n| match d.pos.get() {
        Pos::At(p) if p as u64 != n.pos() => Err(format!("{n:?} is at {}, written at {p}", n.pos())),
        _ => Ok(()),
    })
}

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "a tree with at least two nested collection levels, distinct by text",
        assumptions: &[],
        targets: vec![Target { name: "structure", f: structure, quick: 600_000, thorough: 5_000_000, guided: 0 }, Target { name: "wide", f: wide, quick: 1_200, thorough: 20_000, guided: 0 }],
    }
}

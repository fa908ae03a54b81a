//! Resolution of plain scalars.
use super::common::*;
use crate::{doc::*, engine::*, model::*};
use yaml_peg::{NodeRc, Yaml};

const ATOMS: &[&str] = &[
    "0", "1", "7", "8", "9", "-", "+", ".", "e", "E", "x", "o", "0x", "0o", "a", "f", "F", "g", "G", "z", "b", "d", "_", "n", "N", "~", "null",
    "true", "nan", "inf", "10", "00", "e5", ".0", ":", ",", "\u{a0}", "\u{3000}", "X", "O", "0X", "0O", "0b",
];
const WORDS: &[&str] = &["null", "true", "false", "nan", "inf", "yes", "no", "on", "off", "y", "n", "~", "none"];

fn text(src: &mut Src) -> String {
    match src.weighted(&[5, 3, 3, 3, 3, 2, 2]) {
        0 => {
            let n = src.range(1, 5);
            (0..n).map(|_| *src.pick(ATOMS)).collect()
        }
        1 => gen(src, Cfg::default()).int_text(),
        2 => gen(src, Cfg::default()).float_text(),
        3 => {
            // A word with its case changed and dots or signs in front.
            let w = *src.pick(WORDS);
            let mode = src.below(4);
            let w: String = w
                .chars()
                .enumerate()
                .map(|(i, c)| match mode {
                    0 => c,
                    1 => c.to_ascii_uppercase(),
                    2 if i == 0 => c.to_ascii_uppercase(),
                    3 if src.chance(1, 2) => c.to_ascii_uppercase(),
                    _ => c,
                })
                .collect();
            format!("{}{w}", src.pick(&["", "", ".", "-.", "+.", "-", ".."]))
        }
        4 => {
            // A number with one edit.
            let mut t: Vec<char> = {
                let mut g = gen(src, Cfg::default());
                if g.src.chance(1, 2) { g.int_text() } else { g.float_text() }
            }
            .chars()
            .collect();
            let i = src.usize(t.len());
            if src.chance(1, 6) {
                // The case of its letters.
                return t.into_iter().map(|c| if src.chance(2, 3) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            }
            let c = src.pick(ATOMS).chars().next().unwrap();
            match src.below(3) {
                0 => t[i] = c,
                1 => t.insert(i, c),
                _ => {
                    if t.len() > 1 {
                        t.remove(i);
                    }
                }
            }
            t.into_iter().collect()
        }
        5 => {
            // Two tokens: a number or word followed by something else.
            let a = { gen(src, Cfg::default()).int_text() };
            let b = *src.pick(&["1", "a", "-", "- 1", "1.0", "null", "e5", "px", "%", "x"]);
            let k = src.range(1, 2);
            format!("{a}{}{b}", " ".repeat(k))
        }
        _ => {
            let mut s = String::new();
            if src.chance(1, 2) {
                s.push('-');
            }
            let n = src.range(1, 45);
            for _ in 0..n {
                s.push(char::from(b'0' + src.below(10) as u8));
            }
            s
        }
    }
}

/// (text around, flow?) with `@` standing for the scalar; the scalar is reached
/// by the steps that follow: 's' first item, 'v' first value, 'k' first key.
const CONTEXTS: &[(&str, bool, &str)] = &[
    ("@", false, ""),
    ("@\n", false, ""),
    ("--- @\n", false, ""),
    ("@\n---\nz\n", false, ""),
    ("@ # c\n", false, ""),
    ("@  \n", false, ""),
    ("# c\n@\n...\n", false, ""),
    ("- @\n- z\n", false, "s"),
    ("- @", false, "s"),
    ("- - @\n  - z\n", false, "ss"),
    ("-   @   # c\n", false, "s"),
    ("k: @\n", false, "v"),
    ("k: @", false, "v"),
    ("k: @ \nz: y\n", false, "v"),
    ("k:\n  @\n", false, "v"),
    ("k:\n  a: @\nz: 1\n", false, "vv"),
    ("- k: @\n  z: 1\n", false, "sv"),
    ("@: v\n", false, "k"),
    ("@ : v\n", false, "k"),
    ("- @: v\n", false, "sk"),
    ("? @\n: v\n", false, "k"),
    ("? @\n", false, "k"),
    ("q: 0\n@: v\n", false, "K"),
    ("[@]", true, "s"),
    ("[@, z]\n", true, "s"),
    ("[ @ , z]\n", true, "s"),
    ("[\n  @\n]\n", true, "s"),
    ("[z, @]\n", true, "S"),
    ("[@,]\n", true, "s"),
    ("k: [@]\n", true, "vs"),
    ("{@: v}\n", true, "k"),
    ("{@ : v}\n", true, "k"),
    ("{k: @}\n", true, "v"),
    ("{k: @, z: y}\n", true, "v"),
    ("{k: @ }\n", true, "v"),
    ("{k: [@]}\n", true, "vs"),
    ("{? @ : v}\n", true, "k"),
    ("!t @\n", false, ""),
    ("!!str @\n", false, ""),
    ("- !!null @\n", false, "s"),
    ("k: !!float @\n", false, "v"),
    ("{k: !!int &a @}\n", true, "v"),
    ("[&a !<x> @, z]\n", true, "s"),
    ("&a @\n", false, ""),
    ("- !!x &a @\n", false, "s"),
    ("k: &a @\n", false, "v"),
    ("k: @\r\nz: 1\r\n", false, "v"),
    ("- @\r\n- 1\r\n", false, "s"),
];

fn step<'a>(n: &'a NodeRc, c: char) -> Result<&'a NodeRc, String> {
    let r = match (n.yaml(), c) {
        (Yaml::Seq(v), 's') => v.first(),
        (Yaml::Seq(v), 'S') => v.get(1),
        (Yaml::Map(m), 'v') => m.values().next(),
        (Yaml::Map(m), 'k') => m.keys().next(),
        (Yaml::Map(m), 'K') => m.keys().nth(1),
        _ => None,
    };
    r.ok_or_else(|| format!("no such part {c} in {n:?}"))
}

fn accessors(n: &NodeRc, v: &Val) -> Result<(), String> {
    let int = match v {
        Val::Int(i) => i64::try_from(*i).ok(),
        _ => None,
    };
    if n.as_int().ok() != int {
        return Err(format!("as_int gives {:?} for {v:?}", n.as_int()));
    }
    let float = match v {
        Val::Float(f) => Some(*f),
        _ => None,
    };
    let same = |a: Option<f64>, b: Option<f64>| match (a, b) {
        (Some(a), Some(b)) => a == b || a.is_nan() && b.is_nan(),
        (a, b) => a.is_none() && b.is_none(),
    };
    if !same(n.as_float().ok(), float) {
        return Err(format!("as_float gives {:?} for {v:?}", n.as_float()));
    }
    if !same(n.as_number().ok(), float.or(int.map(|i| i as f64))) {
        return Err(format!("as_number gives {:?} for {v:?}", n.as_number()));
    }
    if n.as_bool().ok() != (if let Val::Bool(b) = v { Some(*b) } else { None }) {
        return Err(format!("as_bool gives {:?} for {v:?}", n.as_bool()));
    }
    let s = match v {
        Val::Str(s) => Some(s.as_str()),
        Val::Null => Some(""),
        _ => None,
    };
    if n.as_str().ok() != s {
        return Err(format!("as_str gives {:?} for {v:?}", n.as_str()));
    }
    if n.is_null() != matches!(v, Val::Null) {
        return Err(format!("is_null gives {} for {v:?}", n.is_null()));
    }
    Ok(())
}

fn contexts(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let t = text(src);
    let (c, flow, path) = *src.pick(CONTEXTS);
    one(ctx, &t, c, flow, path)
}

fn one(ctx: &mut Ctx, t: &str, c: &str, flow: bool, path: &str) -> Result<(), String> {
    // A colon key of a flow map ends at the first colon.
    if !plain_ok(t, flow) || t.ends_with(':') || (t.contains(':') && path.ends_with(['k', 'K'])) {
        ctx.discarded = true;
        return Ok(());
    }
    let doc = c.replace('@', t);
    announce(ctx, || format!("{doc:?}"));
    let exp = resolve(t);
    ctx.label(exp.kind());
    ctx.nontrivial(hash_str(&doc));
    let got = yshim::parse_rc(&doc).map_err(|e| format!("rejected: {e}\n expected {exp:?}"))?;
    let mut n = &got[0];
    for c in path.chars() {
        n = step(n, c)?;
    }
    let v = to_val(n)?;
    if !v.same(&exp) {
        return Err(format!("expected {exp:?}, found {v:?}"));
    }
    if let (Val::Float(a), Val::Float(b)) = (&v, &exp) {
        if a.is_sign_negative() != b.is_sign_negative() && !a.is_nan() {
            return Err(format!("expected {exp:?}, found {v:?}"));
        }
    }
    accessors(n, &exp)
}

const ENUM: &[char] = &['0', '1', '8', '-', '.', 'e', 'E', '+', 'x', 'o', 'a', 'F', 'g', '_', ' ', 'n', '~'];

/// All texts of one to five characters that matter to numbers, in order.
fn enumeration(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let len = src.range(1, 5);
    let t: String = (0..len).map(|_| *src.pick(ENUM)).collect();
    let c = [0, 7, 11, 17, 24, 30, 32][src.usize(7)];
    let (c, flow, path) = CONTEXTS[c];
    one(ctx, &t, c, flow, path)
}

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "a text that is a legal plain scalar in its context (43 block and flow contexts), distinct by document",
        assumptions: &[
            "texts such as +5 or .5, which the documented forms do not name, are expected to be strings",
            "a plain scalar inside a flow collection is generated without ':'",
        ],
        targets: vec![
            Target { name: "contexts", f: contexts, quick: 900_000, thorough: 12_000_000, guided: 30 },
            Target { name: "enumeration", f: enumeration, quick: 900_000, thorough: 12_000_000, guided: 0 },
        ],
    }
}

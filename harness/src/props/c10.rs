//! Dump and parse again.
use super::common::*;
use crate::{doc::*, engine::*, model::*};
use std::rc::Rc;
use yaml_peg::{parser::Anchors, repr::RcRepr, NodeRc, Yaml};

const SPECIAL: &[&str] = &[
    "", " ", "\n", "\t", "~", "null", "Null", "NULL", "nULL", "true", "True", "false", "FALSE", "yes", "0", "-0", "007", "0x1F", "0o17", "0xg", "1.", "1.5", "1.0",
    "-1.50", "1e3", "1E-5", "1.e", ".5", "+1", ".inf", "-.Inf", ".nan", "NaN", "inf", "-", "--", "---", "--- a", "---a", "...", "... b", "- a", "-a", "?", "? a", "?a",
    ":", ": a", "a:", "a: b", "a:b", "a :", " a", "a ", "a  b", "#", "# c", "a # c", "a#c", "a #", "&a", "*a", "!t", "!", "|", "|-", ">", "> a", "%", "%YAML 1.2",
    "@a", "`a", "'", "''", "'a'", "a'b", "\"", "\"a\"", "a\"b", "\\", "\\n", "a\\", "[", "]", "[]", "[a]", "{", "}", "{}", "{a: b}", ",", "a,b", "a, b", ", a", "=", "<<",
    "a\nb", "a\nb\n", "a\nb\n\n", "\na", "\n\na\n", "a\n\nb", " a\nb", "a\n b", "a\n\tb", "\ta\nb", "a \nb", "a\n ", "a\n \nb", "a\n\n", "\n\n", "a\r\nb", "a\rb", "\r",
    "- a\n- b", "a: b\nc: d\n", "# c\nd", "a\n# c", "---\na", "a\n---", "a\n---\nb\n", "...\nb", "|\n a", "é", "中: 文", "🀄\n🀄", "\u{85}", "a\u{85}b", "\u{a0}a", "a\u{a0}",
    "\u{2028}", "\u{feff}a", "\0", "a\u{7}b", "\u{1b}", "\u{7f}", "\u{b}", "\u{c}a", "a\u{b}", "\u{3000}a\nb", "a\n\u{3000}b", "\u{8}",
];

pub fn string(src: &mut Src) -> String {
    let mut s = short_string(src);
    src.stretch(&mut s, 700);
    s
}

fn short_string(src: &mut Src) -> String {
    match src.weighted(&[3, 4, 3, 3]) {
        0 => {
            let n = src.len(8);
            (0..n).map(|_| *src.pick(&['a', 'b', 'z', '9', '-', '.', '_', 'é'])).collect()
        }
        1 => src.pick(SPECIAL).to_string(),
        2 => {
            let n = 1 + src.len(3);
            (0..n).map(|_| *src.pick(SPECIAL)).collect()
        }
        _ => {
            let n = src.len(12);
            (0..n)
                .map(|_| match src.weighted(&[5, 4, 3, 2, 1]) {
                    0 => *src.pick(&['a', 'x', '1', '0', 'e', 'n']),
                    1 => *src.pick(&['-', ':', '#', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`', '?', '\\', '.', '~', '=']),
                    2 => *src.pick(&[' ', '\n', '\t', ' ', '\n']),
                    3 => *src.pick(&['é', '中', '🀄', '\u{85}', '\u{a0}', '\u{feff}', '\u{2028}']),
                    _ => char::from_u32(src.below(128) as u32).unwrap(),
                })
                .collect()
        }
    }
}

pub struct Build<'a> {
    pub src: &'a mut Src,
    pub table: Anchors<RcRepr>,
    pub names: usize,
    pub tags: bool,
    pub anchors: bool,
    /// A chain of nested collections was made.
    pub deep: bool,
}

impl Build<'_> {
    fn leaf(&mut self) -> Yaml<RcRepr> {
        match self.src.weighted(&[2, 2, 3, 3, 10]) {
            0 => Yaml::Null,
            1 => Yaml::Bool(self.src.chance(1, 2)),
            2 => match self.src.below(4) {
                0 => Yaml::from(self.src.u64() as i64),
                1 => Yaml::from(self.src.below(100) as i128 - 50),
                2 => Yaml::Int(self.src.pick(&["0x1F", "0o17", "-0", "007", "0", "99999999999999999999999999999999999999999999", "0xFFFFFFFFFFFFFFFFFFFF", "-170141183460469231731687303715884105728"]).to_string()),
                _ => {
                    let t = { gen(self.src, Cfg::default()).int_text() };
                    Yaml::Int(t)
                }
            },
            3 => match self.src.below(4) {
                0 => Yaml::from(f64::from_bits(self.src.u64())),
                1 => Yaml::from(*self.src.pick(&[0.0, -0.0, 1.0, -1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e21, 1e16, 123456789.125, 1e-7])),
                2 => Yaml::from(f32::from_bits(self.src.u64() as u32)),
                _ => {
                    let t = { gen(self.src, Cfg::default()).float_text() };
                    match t.as_str() {
                        ".nan" | ".NaN" | ".NAN" => Yaml::Float("NaN".into()),
                        ".inf" | ".Inf" | ".INF" => Yaml::Float("inf".into()),
                        "-.inf" | "-.Inf" | "-.INF" => Yaml::Float("-inf".into()),
                        _ => Yaml::Float(t),
                    }
                }
            },
            _ => Yaml::Str(string(self.src)),
        }
    }

    fn tag(&mut self) -> String {
        match self.src.below(5) {
            0 => format!("tag:yaml.org,2002:{}", self.src.pick(&["str", "int", "null", "map", "seq", "set", "float", "bool", "x-1"])),
            1 => self.src.pick(&["t", "my-tag", "a1", "-", "-a", "9"]).to_string(),
            2 => self.src.pick(&["tag:yaml.org,2002:", "tag:yaml.org,2002:a/b", "tag:x,2000:y", "a.b", "a!b", "!a", "!!", "é", "#", "a,b", "[", "&a", "%20"]).to_string(),
            _ => {
                let n = self.src.range(1, 6);
                (0..n).map(|_| *self.src.pick(&['t', 'A', '0', '-', ':', '/', '!', '.', ',', 'é', '#', '*', '\'', '"', '{'])).collect()
            }
        }
    }

    pub fn node(&mut self, depth: usize, key: bool) -> NodeRc {
        if self.anchors && self.src.chance(1, 6) {
            // Any name: defined before, later, around, or nowhere.
            let k = self.src.range(1, self.names + 3);
            return NodeRc::new(Yaml::Alias(format!("n{k}")), 0, "");
        }
        if depth > 0 && !self.deep {
            let n = self.src.big(0, 60);
            if n > 0 {
                self.deep = true;
                let mut c = self.node(depth, false);
                for _ in 0..n {
                    let y: Yaml<RcRepr> = match self.src.weighted(&[3, 3, 1, 1]) {
                        0 => [c].into_iter().collect(),
                        1 => [(NodeRc::from("d"), c)].into_iter().collect(),
                        2 => [(c, NodeRc::from("d"))].into_iter().collect(),
                        _ => [NodeRc::from("d"), c, NodeRc::from(1)].into_iter().collect(),
                    };
                    c = NodeRc::new(y, 0, "");
                }
                return c;
            }
        }
        let tag = if self.tags && self.src.chance(1, 4) { self.tag() } else { String::new() };
        let anchor = if self.anchors && self.src.chance(1, 4) {
            self.names += 1;
            Some(format!("n{}", self.names))
        } else {
            None
        };
        let k = if depth == 0 { 0 } else { self.src.weighted(&[5, 3, 3]) };
        let yaml = match k {
            0 => self.leaf(),
            1 => {
                let (n, depth) = self.src.wide(4, depth - 1);
                Yaml::Seq((0..n).map(|_| self.node(depth, false)).collect())
            }
            _ => {
                let (n, depth) = self.src.wide(4, depth - 1);
                let mut m: Vec<(NodeRc, NodeRc)> = vec![];
                for _ in 0..n {
                    let before = (self.table.clone(), self.names);
                    let kd = if self.src.chance(1, 5) { depth } else { 0 };
                    let k = self.node(kd, true);
                    let kv = to_val(&k).unwrap_or(Val::Null);
                    if m.iter().any(|(o, _)| to_val(o).unwrap_or(Val::Null).same(&kv)) {
                        // A key that is there already: its anchors go away too.
                        (self.table, self.names) = before;
                        continue;
                    }
                    let v = self.node(depth, false);
                    m.push((k, v));
                }
                Yaml::Map(m.into_iter().collect())
            }
        };
        let _ = key;
        let n = NodeRc::new(yaml, 0, tag);
        if let Some(a) = anchor {
            self.table.insert(a, n.clone());
        }
        n
    }
}

fn anchor_of(n: &NodeRc, t: &Anchors<RcRepr>) -> Vec<String> {
    t.iter().filter(|(_, v)| Rc::ptr_eq(v.rc_ref(), n.rc_ref())).map(|(k, _)| k.clone()).collect()
}

/// Same values, tags and anchors at every place.
pub fn compare(a: &NodeRc, ta: &Anchors<RcRepr>, b: &NodeRc, tb: &Anchors<RcRepr>, path: &str) -> Result<(), String> {
    if a.tag() != b.tag() {
        return Err(format!("at {path}: tag {:?} became {:?}", a.tag(), b.tag()));
    }
    let (x, y) = (anchor_of(a, ta), anchor_of(b, tb));
    if x != y {
        return Err(format!("at {path}: anchors {x:?} became {y:?}"));
    }
    match (a.yaml(), b.yaml()) {
        (Yaml::Seq(v), Yaml::Seq(w)) if v.len() == w.len() => {
            for (i, (a, b)) in v.iter().zip(w).enumerate() {
                compare(a, ta, b, tb, &format!("{path}/{i}"))?;
            }
            Ok(())
        }
        (Yaml::Map(v), Yaml::Map(w)) if v.len() == w.len() => {
            for (i, ((ka, va), (kb, vb))) in v.iter().zip(w).enumerate() {
                compare(ka, ta, kb, tb, &format!("{path}/key{i}"))?;
                compare(va, ta, vb, tb, &format!("{path}/{i}"))?;
            }
            Ok(())
        }
        (Yaml::Seq(_) | Yaml::Map(_), _) | (_, Yaml::Seq(_) | Yaml::Map(_)) => Err(format!("at {path}: {a:?} became {b:?}")),
        _ => {
            let (x, y) = (to_val(a)?, to_val(b)?);
            if x.same(&y) {
                Ok(())
            } else {
                Err(format!("at {path}: {x:?} became {y:?}"))
            }
        }
    }
}

fn roundtrip(nodes: &[NodeRc], tables: &[Anchors<RcRepr>]) -> Result<String, String> {
    let text = yshim::dump_rc(nodes, tables);
    let (got, gt) = yshim::cyclic_rc(&text).map_err(|e| format!("the dump is rejected: {e}\n{text}\n{text:?}"))?;
    let shown = |e: String| format!("{e}\n--- dumped\n{text}\n{text:?}");
    if got.len() != nodes.len() {
        return Err(shown(format!("{} documents became {}", nodes.len(), got.len())));
    }
    let none = Anchors::new();
    for (i, (a, b)) in nodes.iter().zip(&got).enumerate() {
        compare(a, tables.get(i).unwrap_or(&none), b, &gt[i], &format!("document {i} ")).map_err(shown)?;
        if !yshim::eq_rc(a, b) {
            return Err(shown(format!("document {i} is not equal to its dump")));
        }
    }
    let text2 = yshim::dump_rc(&got, &gt);
    if text2 != text {
        return Err(format!("the second dump differs:\n{text:?}\n{text2:?}"));
    }
    Ok(text)
}

fn nodes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let docs = src.weighted(&[5, 2, 1]) + 1;
    let (tags, anchors) = (src.chance(1, 3), src.chance(1, 3));
    let depth = src.range(0, 4);
    let mut v = vec![];
    let mut t = vec![];
    for _ in 0..docs {
        let mut b = Build { src, table: Anchors::new(), names: 0, tags, anchors, deep: false };
        v.push(b.node(depth, false));
        t.push(b.table);
    }
    announce(ctx, || format!("{v:#?}\nanchors {:?}", t.iter().map(|t| t.keys().collect::<Vec<_>>()).collect::<Vec<_>>()));
    ctx.label_if(t.iter().any(|t| !t.is_empty()), "anchors");
    ctx.label_if(tags, "tags");
    let text = roundtrip(&v, if anchors { &t } else { &[] })?;
    if anchors && src.chance(1, 2) {
        // Tables for some of the documents only, or for more of them.
        let n = src.usize(docs + 2);
        let mut b = Build { src, table: Anchors::new(), names: 0, tags, anchors, deep: false };
        b.node(1, false);
        let more = b.table;
        t.resize(n, more);
        ctx.label_if(n < docs, "fewer tables");
        roundtrip(&v, &t)?;
    }
    if text.lines().count() > 2 {
        ctx.nontrivial(hash_str(&text));
    }
    ctx.label_if(text.contains("? "), "complex key");
    ctx.label_if(text.contains(": |"), "literal string");
    Ok(())
}

/// One string in every place.
fn strings(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let s = string(src);
    announce(ctx, || format!("{s:?}"));
    ctx.nontrivial(hash_str(&s));
    let n = |y: Yaml<RcRepr>| NodeRc::new(y, 0, "");
    let st = || n(Yaml::Str(s.clone()));
    let x = || n(Yaml::Str("x".into()));
    let map = |k: NodeRc, v: NodeRc| n([(k, v)].into_iter().collect());
    let seq = |v: Vec<NodeRc>| n(v.into_iter().collect());
    let all = [
        st(),
        seq(vec![st(), st(), x()]),
        map(st(), st()),
        map(x(), seq(vec![st(), map(x(), st()), x()])),
        map(seq(vec![st()]), x()),
        seq(vec![seq(vec![seq(vec![st()]), x()]), map(map(st(), st()), x())]),
        NodeRc::new(Yaml::Str(s.clone()), 0, "t"),
        map(NodeRc::new(Yaml::Str(s.clone()), 0, "t"), NodeRc::new(Yaml::Str(s.clone()), 0, "t")),
        n([(x(), st()), (n(Yaml::Str("y".into())), st())].into_iter().collect()),
    ];
    roundtrip(&all, &[])?;
    for a in &all[..3] {
        roundtrip(std::slice::from_ref(a), &[])?;
    }
    Ok(())
}

/// Parsed documents, in both modes.
fn parsed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let docs = src.weighted(&[4, 2]) + 1;
    let st = style(src);
    let mut text = String::new();
    for i in 0..docs {
        let cfg = Cfg {
            anchors: src.chance(1, 2),
            tags: src.chance(1, 2),
            block_scalars: src.chance(1, 2),
            multiline: src.chance(1, 2),
            ..Cfg::default()
        };
        let depth = src.range(1, 4);
        let n = gen(src, cfg).block_node(depth, true);
        let mut r = Ren::new(src, st);
        let m = i > 0 || matches!(n.body, Body::Block { .. }) || r.src.chance(1, 3);
        r.root(&n, m);
        text.push_str(&r.out);
    }
    announce(ctx, || format!("{text}\n{text:?}"));
    ctx.nontrivial(hash_str(&text));
    let (v, t) = yshim::cyclic_rc(&text).map_err(|e| format!("rejected: {e}"))?;
    roundtrip(&v, &t)?;
    // Without the anchors the aliases stay.
    let bare: Vec<Anchors<RcRepr>> = vec![];
    roundtrip(&v, &bare)?;
    // Direct mode: the values are written out.
    let v = yshim::parse_rc(&text).map_err(|e| format!("rejected: {e}"))?;
    roundtrip(&v, &[])?;
    Ok(())
}

/// A deep tree.
fn deep(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let d = src.range(1, 60);
    let mut n = NodeRc::new(Yaml::Str(string(src)), 0, "");
    for _ in 0..d {
        let other = NodeRc::new(Yaml::Str(src.pick(SPECIAL).to_string()), 0, "");
        let y = match src.below(5) {
            0 => Yaml::Seq(vec![n]),
            1 => Yaml::Seq(vec![other, n]),
            2 => [(other, n)].into_iter().collect(),
            3 => [(n, other)].into_iter().collect(),
            _ => Yaml::Seq(vec![n, other]),
        };
        n = NodeRc::new(y, 0, if src.chance(1, 10) { "t" } else { "" });
    }
    announce(ctx, || format!("{n:?}"));
    let text = roundtrip(&[n], &[])?;
    ctx.nontrivial(hash_str(&text));
    Ok(())
}

/// Collections of many entries, and many documents.
fn wide(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let v = wide_val(src);
    let n: NodeRc = build_node(&v);
    announce(ctx, || format!("{} entries\n{n:.0?}", v.size()).chars().take(2000).collect());
    ctx.nontrivial(std_hash(&n));
    let all = match (src.chance(1, 3), n.yaml()) {
        (true, Yaml::Seq(v)) => v.clone(),
        _ => match src.below(3) {
            0 => vec![NodeRc::from([(NodeRc::from("w"), n)].into_iter().collect::<Yaml<RcRepr>>())],
            1 => vec![NodeRc::from([NodeRc::from("w"), n].into_iter().collect::<Yaml<RcRepr>>())],
            _ => vec![n],
        },
    };
    roundtrip(&all, &[]).map(|_| ()).map_err(|e| e.chars().take(4000).collect())
}

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "a node tree or parsed stream whose dump has more than two lines, or any string, distinct by text",
        assumptions: &[
            "tags contain no space, line break, '<' or '>'; anchor names consist of ASCII letters, digits, '-' and '_'; aliases carry no tag: nothing else can be written in YAML",
            "number nodes hold a text in one of the documented forms",
        ],
        targets: vec![
            Target { name: "nodes", f: nodes, quick: 360_000, thorough: 4_000_000, guided: 20 },
            Target { name: "strings", f: strings, quick: 180_000, thorough: 1_500_000, guided: 20 },
            Target { name: "parsed", f: parsed, quick: 120_000, thorough: 1_000_000, guided: 0 },
            Target { name: "wide", f: wide, quick: 600, thorough: 10_000, guided: 0 },
            Target { name: "deep", f: deep, quick: 12_000, thorough: 100_000, guided: 0 },
        ],
    }
}

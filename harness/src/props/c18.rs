//! Documents with one defect are rejected.
use super::common::*;
use crate::{doc::*, engine::*, model::*};

/// Replace all scalars by words without any special character.
fn simplify(n: &mut DNode, names: &mut usize) {
    match &mut n.body {
        Body::Plain(_) | Body::Single(_) | Body::Double(..) | Body::Block { .. } | Body::Multi(..) => {
            *names += 1;
            n.body = Body::Plain(format!("w{names}"));
        }
        Body::FlowSeq(v) | Body::Seq(v) => v.iter_mut().for_each(|n| simplify(n, names)),
        Body::FlowMap(m) | Body::Map(m) => m.iter_mut().for_each(|(k, v)| {
            simplify(k, names);
            simplify(v, names);
        }),
        _ => {}
    }
}

/// Where a scalar stands.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Root,
    Item,
    Value,
    Key,
    /// A value behind an explicit key or the key itself.
    Explicit,
    FlowItem,
    FlowValue,
    FlowKey,
}

fn places(n: &DNode, at: Place, out: &mut Vec<(String, Place)>) {
    match &n.body {
        Body::Plain(s) => out.push((s.clone(), at)),
        Body::Seq(v) => v.iter().for_each(|n| places(n, Place::Item, out)),
        Body::FlowSeq(v) => v.iter().for_each(|n| places(n, Place::FlowItem, out)),
        Body::FlowMap(m) => m.iter().for_each(|(k, v)| {
            places(k, Place::FlowKey, out);
            places(v, Place::FlowValue, out);
        }),
        Body::Map(m) => m.iter().for_each(|(k, v)| {
            if k.is_collection() || matches!(k.body, Body::Empty) {
                places(k, Place::Explicit, out);
                places(v, Place::Explicit, out);
            } else {
                places(k, Place::Key, out);
                places(v, Place::Value, out);
            }
        }),
        _ => {}
    }
}

const ANYWHERE: &[(&str, &str)] = &[
    ("surplus comma", "[, a]"),
    ("surplus comma", "[,]"),
    ("surplus comma", "[a,, b]"),
    ("surplus comma", "[a, , b]"),
    ("surplus comma", "[a,,]"),
    ("surplus comma", "[a: 1,, b]"),
    ("surplus comma", "[[a],, b]"),
    ("surplus comma", "[\"a\" , ,]"),
    ("surplus comma", "[~,,a]"),
    ("surplus comma", "{,}"),
    ("surplus comma", "{, a: 1}"),
    ("surplus comma", "{a: 1,, b: 2}"),
    ("surplus comma", "{a: 1, ,}"),
    ("surplus comma", "{a,, b}"),
    ("surplus comma", "[{a: 1},, b]"),
    ("unclosed bracket", "[a"),
    ("unclosed bracket", "[a, b"),
    ("unclosed bracket", "["),
    ("unclosed bracket", "{a: 1"),
    ("unclosed bracket", "{"),
    ("unclosed bracket", "{a: [b, c]"),
    ("unclosed bracket", "[{a: b}"),
    ("mismatched bracket", "[a}"),
    ("mismatched bracket", "{a: b]"),
    ("mismatched bracket", "[[a}]"),
    ("mismatched bracket", "[{a: b]}"),
    ("mismatched bracket", "{a: [b}]"),
    ("surplus bracket", "[a]]"),
    ("surplus bracket", "{a: b}}"),
    ("surplus bracket", "\"a\"]"),
    ("surplus bracket", "'a'}"),
    ("content behind a string", "\"a\" b"),
    ("content behind a string", "'a' b"),
    ("content behind a string", "\"a\" \"b\""),
    ("content behind a string", "'a' \"b\""),
    ("content behind a string", "\"a\"b"),
    ("content behind a string", "'a'b"),
    ("content behind a string", "\"a\" [b]"),
    ("content behind a string", "\"a\" &b"),
    ("content behind a string", "\"a\" !b"),
    ("content behind a collection", "[a] b"),
    ("content behind a collection", "[a]b"),
    ("content behind a collection", "[a] [b]"),
    ("content behind a collection", "{a: b} c"),
    ("content behind a collection", "{a: b}{c: d}"),
    ("content behind a collection", "[a] \"b\""),
    ("content behind a collection", "{} 'b'"),
    ("missing comma", "[\"a\" \"b\"]"),
    ("missing comma", "[[a] [b]]"),
    ("missing comma", "{a: b c: d}"),
    ("missing comma", "{a: \"b\" c: d}"),
    ("missing comma", "{a: [b] c: d}"),
    ("missing comma", "[{a: b} c]"),
    ("empty entry", "{a: 1,, b: 2}"),
    ("block in flow", "[- a]"),
    ("block in flow", "{a: - b}"),
    ("block in flow", "[| x]"),
    ("undefined alias", "*zz"),
    ("undefined alias", "[*zz]"),
    ("undefined alias", "{a: *zz}"),
    ("undefined alias", "{*zz : a}"),
    ("malformed property", "& a"),
    ("malformed property", "* a"),
    ("malformed property", "&a &b c"),
    ("malformed property", "!<a c"),
    ("malformed property", "!zz!a c"),
    ("block collection behind a property", "&p - a"),
    ("block collection behind a property", "!p - a"),
    ("block collection behind a property", "!p &p - a"),
    ("block collection behind a property", "&p !!p  - a: b"),
    ("block collection behind a property", "&p ? a"),
    ("block collection behind a property", "!p ? a"),
    ("no space behind the colon", "\"a\":b"),
    ("no space behind the colon", "'a':[b]"),
    ("no space behind the colon", "\"a\":\"b\""),
    ("no space behind the colon", "[a]:{b: c}"),
    ("two splitters", "[a: b: c]"),
    ("two splitters", "{a: b: c}"),
    ("two splitters", "[\"a\": \"b\": c]"),
    ("two splitters", "[a: b :]"),
    ("two splitters", "{a: [b]: c}"),
    ("two splitters", "[? a: b: c]"),
    ("two splitters", "{? a: b: c}"),
    ("explicit key without comma", "[? \"a\" ? b]"),
    ("explicit key without comma", "{? [a] ? b}"),
    ("explicit key without comma", "[a: [b] ? c]"),
    ("key of several lines", "[a\n@ b: c]"),
    ("key of several lines", "[\"a\n@ b\": c]"),
    ("key of several lines", "[\"a\"\n@ : c]"),
    ("key of several lines", "[[a,\n@ b]: c]"),
    ("key of several lines", "[{a: b,\n@ c: d}: e, f]"),
    ("block scalar header", "| x"),
    ("block scalar header", "|x"),
    ("block scalar header", "> x"),
    ("block scalar header", ">- x"),
    ("block scalar header", "|+ x"),
    ("block scalar header", "|++"),
    ("block scalar header", ">-+"),
];

/// An implicit key of a block map.
const KEY: &[(&str, &str)] = &[
    ("key of several lines", "a\n@ b"),
    ("key of several lines", "\"a\n@ b\""),
    ("key of several lines", "'a\n\n@ b'"),
    ("key of several lines", "[a,\n@ b]"),
    ("key of several lines", "{a:\n@ b}"),
    ("key of several lines", "[a # c\n@ ]"),
    ("key of several lines", "\"a\"\n@ "),
];

/// Not where a block collection could start.
const VALUE: &[(&str, &str)] = &[
    ("block collection in a line", "- a"),
    ("block collection in a line", "- a: b"),
    ("block collection in a line", "a: b"),
    ("block collection in a line", "a: b: c"),
    ("block collection in a line", "? a"),
    ("block collection in a line", "\"a\": b"),
    ("block collection in a line", "'a': b"),
    ("block collection in a line", "[a]: b"),
    ("block collection in a line", "{a: b}: c"),
    ("block collection in a line", "&a b: c"),
    ("block collection in a line", "!a b: c"),
];

/// There is a collection that is a key of a flow map.
fn flow_keys(n: &DNode) -> bool {
    n.count(&|d| matches!(&d.body, Body::FlowMap(m) if m.iter().any(|(k, _)| k.is_collection()))) > 0
}

/// Something between two closed values in a flow collection.
fn stray(src: &mut Src) -> String {
    let closed = ["\"a\"", "'a'", "[a]", "{a: b}", "[]", "{}", "\"\""];
    let (x, y) = (*src.pick(&closed), *src.pick(&["\"b\"", "'b'", "[b]", "{b: c}", "b", "1", ""]));
    let mid: Vec<char> = (' '..='~').filter(|c| !" ,:#]}[{".contains(*c)).chain(['\u{7f}', 'é', '，', '；', '：', '\u{1}']).collect();
    let s = *src.pick(&mid);
    let (l, r) = (*src.pick(&["", " "]), *src.pick(&["", " "]));
    match src.below(5) {
        0 => format!("[{x}{l}{s}{r}{y}]"),
        1 => format!("{{{x}{l}{s}{r}{y}}}"),
        2 => format!("{{k: {x}{l}{s}{r}{y}}}"),
        3 => format!("[k, {x}{l}{s}{r}{y}, z]"),
        _ => format!("{{{x}{l}{s}{r}{y}: v}}"),
    }
}

fn simple_doc(src: &mut Src, ctx: &mut Ctx) -> DNode {
    let depth = src.range(1, 4);
    let mut n = gen(src, Cfg { tags: false, ..Cfg::default() }).block_node(depth, true);
    simplify(&mut n, &mut 0);
    ctx.label_if(depth > 2, "deep");
    n
}

/// A scalar replaced by a malformed piece.
fn pieces(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = simple_doc(src, ctx);
    let mut all = vec![];
    places(&n, Place::Root, &mut all);
    if all.is_empty() {
        ctx.discarded = true;
        return Ok(());
    }
    let (name, at) = src.pick(&all).clone();
    let (what, piece) = match src.below(6) {
        0 | 1 if at == Place::Value => *src.pick(VALUE),
        0 | 1 if at == Place::Key => *src.pick(KEY),
        2 => ("stray character", ""),
        _ => *src.pick(ANYWHERE),
    };
    let st = style(src);
    let piece = if what == "stray character" { stray(src) } else { piece.replace('\n', st.nl) };
    if what == "no space behind the colon" && matches!(at, Place::FlowItem | Place::FlowKey)
        || what == "surplus bracket" && (at == Place::FlowKey || flow_keys(&n))
    {
        // A pair, or a key that is a collection.
        ctx.discarded = true;
        return Ok(());
    }
    let mut r = Ren::new(src, st);
    r.root(&n, false);
    let good = r.out;
    // The name is a whole word.
    let Some(i) = find_word(&good, &name) else {
        return Err("the place is not in the text".into());
    };
    let line = good[..i].rfind(['\n', '\r']).map_or(0, |j| j + 1);
    let before = good[line..i].trim_end();
    let key = good[i + name.len()..].trim_start_matches(blank).starts_with(':');
    if at == Place::Key && what == "key of several lines" && (before.contains('?') || !key) {
        // Explicit keys can have several lines.
        ctx.discarded = true;
        return Ok(());
    }
    let explicit = before.strip_suffix(':').is_some_and(|l| l.is_empty() || l.ends_with(blank));
    if VALUE.contains(&(what, piece.as_str())) && (before.is_empty() || explicit) {
        // On a line of its own or behind an explicit key a collection may start.
        ctx.discarded = true;
        return Ok(());
    }
    // Deeper than any collection.
    let deep = good.split(['\n', '\r']).map(str::len).max().unwrap_or(0) + 10;
    let text = piece.replace(&format!("{}@", st.nl), &format!("{}{}", st.nl, " ".repeat(deep)));
    let doc = format!("{}{text}{}", &good[..i], &good[i + name.len()..]);
    announce(ctx, || format!("{what} ({at:?})\n{doc}\n{doc:?}"));
    ctx.label(what);
    ctx.nontrivial(hash_str(&doc));
    reject(&doc, what).map(|_| ())
}

fn find_word(s: &str, w: &str) -> Option<usize> {
    let mut from = 0;
    while let Some(i) = s[from..].find(w) {
        let i = from + i;
        let b = s.as_bytes();
        let alone = |c: Option<&u8>| c.is_none_or(|c| !c.is_ascii_alphanumeric());
        if alone(i.checked_sub(1).and_then(|j| b.get(j))) && alone(b.get(i + w.len())) {
            return Some(i);
        }
        from = i + 1;
    }
    None
}

/// Documents cut off within a bracket or a quoted string, and quotes or
/// brackets that are taken away.
fn cut(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut n = simple_doc(src, ctx);
    // No comments: they could hold a bracket or quote.
    let st = Style { noise: false, nl: line_end(src), vary: src.chance(2, 3) };
    let mut all = vec![];
    places(&n, Place::Root, &mut all);
    if !all.is_empty() && src.chance(1, 2) {
        let (name, _) = src.pick(&all).clone();
        let q = src.chance(1, 2);
        quote(&mut n, &name, q);
    }
    let mut r = Ren::new(src, st);
    r.root(&n, false);
    let good = r.out;
    let b = good.as_bytes();
    // What is open before each byte.
    let mut open = vec![];
    let mut stack: Vec<u8> = vec![];
    for c in b {
        open.push(stack.clone());
        match (stack.last(), c) {
            (Some(q @ (b'\'' | b'"')), c) => {
                if q == c {
                    stack.pop();
                }
            }
            (_, b'[' | b'{' | b'\'' | b'"') => stack.push(*c),
            (_, b']' | b'}') => {
                stack.pop();
            }
            _ => {}
        }
    }
    let (what, doc) = if src.chance(1, 2) {
        let spots: Vec<usize> = (0..b.len()).filter(|i| !open[*i].is_empty() && good.is_char_boundary(*i)).collect();
        if spots.is_empty() {
            ctx.discarded = true;
            return Ok(());
        }
        let i = *src.pick(&spots);
        let tail = *src.pick(&["", "\n", "\n\n", " # c\n", "\nw: x\n", "\n- w\n", "\n---\nw\n", "\n...\n"]);
        ("cut off", good[..i].to_string() + tail)
    } else {
        let spots: Vec<usize> = (0..b.len()).filter(|i| open.get(i + 1).map_or(0, Vec::len) < open[*i].len()).collect();
        if spots.is_empty() {
            ctx.discarded = true;
            return Ok(());
        }
        let i = *src.pick(&spots);
        let with = match b[i] {
            b']' => *src.pick(&["", "}", "[", "{", "\""]),
            b'}' => *src.pick(&["", "]", "[", "{", "'"]),
            b'\'' => *src.pick(&["", "\"", "]"]),
            _ => *src.pick(&["", "'", "}"]),
        };
        ("end replaced", format!("{}{with}{}", &good[..i], &good[i + 1..]))
    };
    announce(ctx, || format!("{what}\n{doc}\n{doc:?}\nfrom {good:?}"));
    ctx.label(what);
    ctx.nontrivial(hash_str(&doc));
    reject(&doc, what).map(|_| ())
}

fn quote(n: &mut DNode, name: &str, double: bool) {
    match &mut n.body {
        Body::Plain(s) if s == name => {
            let s = std::mem::take(s);
            n.body = if double { Body::Double(s, vec![]) } else { Body::Single(s) };
        }
        Body::FlowSeq(v) | Body::Seq(v) => v.iter_mut().for_each(|n| quote(n, name, double)),
        Body::FlowMap(m) | Body::Map(m) => m.iter_mut().for_each(|(k, v)| {
            quote(k, name, double);
            quote(v, name, double);
        }),
        _ => {}
    }
}

// ------------------------------------------------------------ lines

struct Line {
    col: usize,
    text: String,
    /// The columns of the collections around the entry, the innermost last, and
    /// whether they are sequences.
    open: Vec<(usize, bool)>,
    seq: bool,
    first: bool,
    /// The line ends a value of one line that no deeper line can continue.
    closed: bool,
    /// The line is `key:` or `- ` without a value of its own.
    bare: bool,
    /// The compact structure has no line of its own.
    inline: bool,
}

struct Tree<'a> {
    src: &'a mut Src,
    lines: Vec<Line>,
    names: usize,
}

impl Tree<'_> {
    fn name(&mut self) -> String {
        self.names += 1;
        format!("w{}", self.names)
    }
    /// Entries of a collection whose entries stand at the column. `lead`: text
    /// that stands before the first entry in its line.
    fn collection(&mut self, col: usize, open: &[(usize, bool)], depth: usize, same: bool, mut lead: Option<(usize, String)>) {
        let mut around = open.to_vec();
        let seq = same || self.src.chance(1, 2);
        around.push((col, seq));
        let n = self.src.range(1, 4);
        for i in 0..n {
            let k = if seq { "-".to_string() } else { self.name() + ":" };
            let (at, text, inline) = match lead.take() {
                Some((at, l)) => (at, l + &k, true),
                None => (col, k, false),
            };
            let mut line = Line { col: at, text, open: around.clone(), seq, first: i == 0, closed: false, bare: false, inline };
            let kind = if depth == 0 { self.src.usize(4) } else { self.src.usize(7) };
            let w = self.name();
            match kind {
                0 | 1 => {
                    let v = match self.src.below(4) {
                        0 => format!("\"{w}\""),
                        1 => format!("'{w}'"),
                        2 => format!("[{w}]"),
                        _ => format!("{{{w}: {w}}}"),
                    };
                    line.text += &format!(" {v}");
                    line.closed = true;
                    self.lines.push(line);
                }
                2 => {
                    line.text += &format!(" {w}");
                    self.lines.push(line);
                }
                3 => {
                    line.bare = true;
                    self.lines.push(line);
                }
                4 if seq => {
                    let k = self.src.range(1, 3);
                    let l = line.text + &" ".repeat(k);
                    self.collection(col + 1 + k, &around, depth - 1, false, Some((line.col, l)));
                }
                k => {
                    let same = !seq && k == 6;
                    let step = if same { 0 } else { self.src.range(1, 4) };
                    line.bare = true;
                    self.lines.push(line);
                    self.collection(col + step, &around, depth - 1, same, None);
                }
            }
        }
    }
}

/// A line of a block document at a wrong column, or of the wrong kind.
fn lines(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(1, 4);
    let mut t = Tree { src, lines: vec![], names: 0 };
    t.collection(0, &[], depth, false, None);
    let Tree { lines: l, src, .. } = t;
    let good: String = l.iter().map(|l| format!("{}{}\n", " ".repeat(l.col), l.text)).collect();
    expect_none(&good)?;
    let mut spots: Vec<(&'static str, usize, usize)> = vec![];
    for (i, x) in l.iter().enumerate() {
        if x.inline || i == 0 {
            continue;
        }
        let parent = x.open.len().checked_sub(2).map(|k| x.open[k].0);
        if !x.first {
            // Between the columns of the collection and of its parent.
            let low = parent.map_or(0, |p| p + 1);
            for c in low..x.col {
                spots.push(("dedented entry", i, c));
            }
        }
        let before = &l[i - 1];
        if before.closed {
            for c in [1, 2, 3, 5] {
                spots.push(("indented entry", i, before.open[before.open.len() - 1].0 + c));
            }
        } else if !before.bare && !x.seq {
            // Continues a plain scalar, which cannot be a key then.
            spots.push(("indented entry", i, before.open[before.open.len() - 1].0 + 1));
        }
    }
    // An entry of the other kind behind the line.
    for (i, x) in l.iter().enumerate() {
        if x.bare {
            continue;
        }
        for (c, _) in &x.open {
            // Two collections at one column: either kind may follow.
            if x.open.iter().filter(|o| o.0 == *c).count() == 1 {
                spots.push(("other entry", i, *c));
            }
        }
    }
    // A comment ends a plain scalar, which a deeper line continues.
    for (i, x) in l.iter().enumerate() {
        if !x.bare && !x.closed {
            let c = x.open[x.open.len() - 1].0;
            spots.push(("comment in a plain scalar", i, c + 1));
            spots.push(("comment in a plain scalar", i, c + 3));
        }
    }
    if spots.is_empty() {
        ctx.discarded = true;
        return Ok(());
    }
    let (what, i, c) = *src.pick(&spots);
    let mut doc = String::new();
    let mut control = String::new();
    for (j, x) in l.iter().enumerate() {
        if what == "comment in a plain scalar" {
            let (line, tail) = (format!("{}{}", " ".repeat(x.col), x.text), format!("{}zz\n", " ".repeat(c)));
            doc += &line;
            control += &line;
            if i == j {
                // At the end of the line, or on lines of its own.
                let kind = src.below(4);
                if kind & 1 == 0 {
                    doc += *src.pick(&[" # c", "  #", " #zz", "\t# c"]);
                }
                doc.push('\n');
                if kind > 0 {
                    let k = src.range(0, 6);
                    let before = src.chance(1, 4);
                    doc += &format!("{}{}# c\n{}", if before { "\n" } else { "" }, " ".repeat(k), if src.chance(1, 4) { "\n" } else { "" });
                }
                doc += &tail;
                control.push('\n');
                control += &tail;
            } else {
                doc.push('\n');
                control.push('\n');
            }
            continue;
        }
        let col = if i == j && what != "other entry" { c } else { x.col };
        doc += &format!("{}{}\n", " ".repeat(col), x.text);
        if i == j && what == "other entry" {
            let seq = x.open.iter().any(|o| *o == (c, true));
            let e = if seq { *src.pick(&["zz: 1", "zz", "? zz", "\"z\": z", "[z]", "zz:"]) } else { *src.pick(&["- zz", "zz", "-", "[z]", "\"z\"", "{z: z}"]) };
            doc += &format!("{}{e}\n", " ".repeat(c));
        }
    }
    let nl = line_end(src);
    let (doc, control) = (doc.replace('\n', nl), control.replace('\n', nl));
    announce(ctx, || format!("{what}\n{doc}\n{doc:?}\nfrom {good:?}"));
    ctx.label(what);
    ctx.nontrivial(hash_str(&doc));
    if !control.is_empty() {
        expect_none(&control).map_err(|e| format!("{e}\n{control:?}"))?;
    }
    reject(&doc, what).map(|_| ())
}

/// The document without the defect is fine.
fn expect_none(text: &str) -> Result<(), String> {
    match yshim::parse_rc(text) {
        Ok(v) => to_vals(&v).map(|_| ()),
        Err(e) => Err(format!("rejected without the defect: {e}")),
    }
}

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "a document with exactly one defect, distinct by text",
        assumptions: &["only defects that leave no valid reading are inserted; readings the library documents or its tests fix as lenient are left out"],
        targets: vec![
            Target { name: "pieces", f: pieces, quick: 450_000, thorough: 3_000_000, guided: 0 },
            Target { name: "cut", f: cut, quick: 300_000, thorough: 2_000_000, guided: 0 },
            Target { name: "lines", f: lines, quick: 450_000, thorough: 3_000_000, guided: 0 },
        ],
    }
}

//! JSON is YAML.
use super::c11::each;
use super::common::*;
use crate::{dynty::*, engine::*, model::*};
use serde::{de::DeserializeSeed, Deserialize};
use serde_json::Value;
use yaml_peg::{serde::*, NodeArc, NodeRc};

/// Number texts with the value JSON gives them.
fn number(src: &mut Src) -> (String, Val) {
    let digits = |src: &mut Src, max: usize| {
        let n = src.range(1, max);
        let s: String = (0..n).map(|_| char::from(b'0' + src.below(10) as u8)).collect();
        s
    };
    let mut s = String::new();
    if src.chance(1, 3) {
        s.push('-');
    }
    if src.chance(1, 4) {
        s.push('0');
    } else {
        s.push(char::from(b'1' + src.below(9) as u8));
        let max = *src.pick(&[1, 4, 18, 36, 45]);
        let max = src.big(max, 190).max(max);
        s += &digits(src, max);
    }
    let mut float = false;
    if src.chance(1, 3) {
        s.push('.');
        let max = src.big(18, 400);
        s += &digits(src, max);
        float = true;
    }
    if src.chance(1, 4) {
        s.push(*src.pick(&['e', 'E']));
        s += *src.pick(&["", "-", "+"]);
        if src.chance(1, 5) {
            s.push('0');
        }
        s += &digits(src, 2);
        float = true;
    }
    let v = if float {
        Val::Float(s.parse().unwrap())
    } else {
        s.parse().map_or_else(|_| Val::Big(s.clone()), Val::Int)
    };
    (s, v)
}

fn raw_string(src: &mut Src) -> String {
    if src.chance(1, 2) {
        return crate::props::string(src);
    }
    let n = src.len(12);
    let n = src.big(n, 500);
    (0..n)
        .map(|_| match src.weighted(&[4, 3, 2, 2]) {
            0 => *src.pick(&['a', '"', '\\', '/', ' ', ':', ',', '#', '\'', '{', ']']),
            1 => char::from_u32(src.below(0xa1) as u32).unwrap(),
            2 => *src.pick(&['\u{7f}', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '🀄', '中']),
            _ => char::from_u32(src.below(0x110000) as u32).unwrap_or('x'),
        })
        .collect()
}

struct Json<'a> {
    src: &'a mut Src,
    out: String,
    /// The whitespace of each level, or free whitespace.
    indent: Option<&'static str>,
    eol: &'static str,
    free: bool,
    /// How often characters are escaped without need, in sixteenths.
    escape: u64,
    deep: bool,
}

impl Json<'_> {
    fn string(&mut self, s: &str) {
        self.out.push('"');
        for c in s.chars() {
            let must = (c as u32) < 0x20 || c == '"' || c == '\\';
            let more = self.src.chance(self.escape, 16);
            if !must && !more {
                self.out.push(c);
                continue;
            }
            let short = match c {
                '\n' => "\\n",
                '\r' => "\\r",
                '\t' => "\\t",
                '\u{8}' => "\\b",
                '\u{c}' => "\\f",
                '"' => "\\\"",
                '\\' => "\\\\",
                '/' => "\\/",
                _ => "",
            };
            if !short.is_empty() && !self.src.chance(self.escape, 16) {
                self.out.push_str(short);
                continue;
            }
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                self.out += &if self.src.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
            }
        }
        self.out.push('"');
    }

    fn gap(&mut self) {
        if !self.free {
            return;
        }
        for _ in 0..self.src.weighted(&[6, 3, 1, 1]) {
            self.out += *self.src.pick(&[" ", "\n", "\t", "\r\n", "  "]);
        }
    }

    fn line(&mut self, depth: usize) {
        if let Some(i) = self.indent {
            self.out += self.eol;
            self.out += &i.repeat(depth);
        }
    }

    /// Collections inside each other.
    fn chain(&mut self, n: usize, depth: usize, level: usize) -> Val {
        if n == 0 {
            return self.node(depth, level);
        }
        let map = self.src.chance(1, 2);
        self.out.push(if map { '{' } else { '[' });
        self.line(level + 1);
        self.gap();
        if map {
            self.string("d");
            self.gap();
            self.out.push(':');
            if self.indent.is_some() {
                self.out.push(' ');
            }
            self.gap();
        }
        let v = self.chain(n - 1, depth, level + 1);
        self.gap();
        self.line(level);
        self.out.push(if map { '}' } else { ']' });
        if map {
            Val::Map(vec![(Val::s("d"), v)])
        } else {
            Val::Seq(vec![v])
        }
    }

    fn node(&mut self, depth: usize, level: usize) -> Val {
        if depth > 0 && !self.deep {
            let n = self.src.big(0, 60);
            if n > 0 {
                self.deep = true;
                return self.chain(n, depth, level);
            }
        }
        let k = if depth == 0 { self.src.below(5) } else { self.src.below(8) };
        match k {
            0 => {
                let s = raw_string(self.src);
                self.string(&s);
                Val::Str(s)
            }
            1 => {
                let (s, v) = number(self.src);
                self.out += &s;
                v
            }
            2 => {
                self.out += "null";
                Val::Null
            }
            3 => {
                self.out += "true";
                Val::Bool(true)
            }
            4 => {
                self.out += "false";
                Val::Bool(false)
            }
            5 => {
                self.out.push('[');
                let (n, depth) = self.src.wide(4, depth - 1);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.gap();
                        self.out.push(',');
                    }
                    self.line(level + 1);
                    self.gap();
                    v.push(self.node(depth, level + 1));
                }
                self.gap();
                if n > 0 {
                    self.line(level);
                }
                self.out.push(']');
                Val::Seq(v)
            }
            _ => {
                self.out.push('{');
                let (n, depth) = self.src.wide(4, depth - 1);
                let mut m: Vec<(Val, Val)> = vec![];
                for _ in 0..n {
                    let k = raw_string(self.src);
                    if m.iter().any(|(x, _)| *x == Val::s(&k)) {
                        continue;
                    }
                    if !m.is_empty() {
                        self.gap();
                        self.out.push(',');
                    }
                    self.line(level + 1);
                    self.gap();
                    self.string(&k);
                    self.gap();
                    self.out.push(':');
                    if self.indent.is_some() {
                        self.out.push(' ');
                    }
                    self.gap();
                    let v = self.node(depth, level + 1);
                    m.push((Val::Str(k), v));
                }
                self.gap();
                if !m.is_empty() {
                    self.line(level);
                }
                self.out.push('}');
                Val::Map(m)
            }
        }
    }
}

/// The value as the JSON library holds it, unless its numbers go beyond it.
fn to_json(v: &Val) -> Option<Value> {
    Some(match v {
        Val::Null => Value::Null,
        Val::Bool(b) => (*b).into(),
        Val::Int(i) => i64::try_from(*i).map(Value::from).or_else(|_| u64::try_from(*i).map(Value::from)).ok()?,
        Val::Float(f) => Value::Number(serde_json::Number::from_f64(*f)?),
        Val::Str(s) => s.as_str().into(),
        Val::Seq(v) => Value::Array(v.iter().map(to_json).collect::<Option<_>>()?),
        Val::Map(m) => {
            let m = m.iter().map(|(k, v)| match k {
                Val::Str(k) => Some((k.clone(), to_json(v)?)),
                _ => None,
            });
            Value::Object(m.collect::<Option<_>>()?)
        }
        Val::Big(_) | Val::Alias(_) => return None,
    })
}

/// Equal but for the last digits of floats, which the JSON library reads
/// with less than full precision.
fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= f64::max(x.abs(), y.abs()) * 1e-14
        }
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| close(a, b)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| close(v, w))),
        _ => a == b,
    }
}

/// A text of JSON, in any legal layout.
fn texts(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 5);
    let indent = [None, Some("  "), Some("\t"), Some("    "), Some(" "), Some("")][src.usize(6)];
    let free = src.chance(1, 4);
    let eol = line_end(src);
    let escape = *src.pick(&[0, 2, 8, 16]);
    let mut j = Json { src, out: String::new(), indent, eol, free, escape, deep: false };
    j.gap();
    let v = j.node(depth, 0);
    j.gap();
    let mut text = j.out;
    if src.chance(1, 2) {
        text += eol;
    }
    announce(ctx, || format!("{text}\n{text:?}"));
    ctx.label_if(indent.is_some(), "pretty");
    ctx.label_if(free, "free whitespace");
    if v.depth() > 0 || v.kind() == "str" {
        ctx.nontrivial(hash_str(&text));
    }
    expect_rc(&text, std::slice::from_ref(&v))?;
    // What the JSON library makes of the text (its floats and big numbers differ in kind).
    let lib = to_json(&v);
    if !text.contains("-0") {
        match (serde_json::from_str::<Value>(&text), &lib) {
            (Ok(a), Some(b)) if close(&a, b) => {}
            (Ok(_), None) => ctx.label("numbers beyond the JSON library"),
            (a, b) => return Err(format!("HARNESS: the JSON library reads {a:?}, expected {b:?}")),
        }
    }
    // The same through the deserializer.
    if let Some(lib) = lib {
        let r = from_str::<Value>(&text).map_err(|e| format!("from_str: {e}"))?;
        if r != [lib.clone()] {
            return Err(format!("from_str gives {r:?}, expected {lib:?}"));
        }
        let n: NodeRc = serde_json::from_str(&text).map_err(|e| format!("a node from the JSON library: {e}"))?;
        if text.contains("-0") {
            return Ok(());
        }
        let got = to_val(&n)?;
        if to_json(&got).is_none_or(|j| !close(&j, &lib)) {
            return Err(format!("a node from the JSON library is {got:?}, expected {v:?}"));
        }
    }
    Ok(())
}

fn tree(src: &mut Src, depth: usize) -> Value {
    match if depth == 0 { src.below(5) } else { src.below(8) } {
        0 => raw_string(src).into(),
        1 => match src.below(3) {
            0 => (src.u64() as i64 >> src.below(63)).into(),
            1 => (src.u64() >> src.below(63)).into(),
            _ => {
                let f = match src.below(3) {
                    0 => src.below(4000) as f64 / 16.0 - 100.0,
                    1 => *src.pick(&[0.0, -0.0, 1.0, 1e21, 1e-7, 1e300, 5e-324, f64::MAX, f64::MIN]),
                    _ => f64::from_bits(src.u64()),
                };
                serde_json::Number::from_f64(f).map_or(Value::Null, Value::Number)
            }
        },
        2 => Value::Null,
        3 => true.into(),
        4 => false.into(),
        5 => {
            let (n, depth) = src.wide(4, depth - 1);
            Value::Array((0..n).map(|_| tree(src, depth)).collect())
        }
        _ => {
            let (n, depth) = src.wide(4, depth - 1);
            Value::Object((0..n).map(|_| (raw_string(src), tree(src, depth))).collect())
        }
    }
}

/// The data the JSON library holds.
fn from_json(v: &Value) -> Val {
    match v {
        Value::Null => Val::Null,
        Value::Bool(b) => Val::Bool(*b),
        Value::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => Val::Int(i as i128),
            (_, Some(u)) => Val::Int(u as i128),
            _ => Val::Float(n.as_f64().unwrap()),
        },
        Value::String(s) => Val::s(s),
        Value::Array(v) => Val::Seq(v.iter().map(from_json).collect()),
        Value::Object(m) => Val::Map(m.iter().map(|(k, v)| (Val::s(k), from_json(v))).collect()),
    }
}

fn values(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 4);
    let v = tree(src, depth);
    announce(ctx, || format!("{v:#}"));
    ctx.nontrivial(hash_str(&v.to_string()));
    let want = from_json(&v);
    let e = |what: &'static str| move |e: SerdeError| format!("{what}: {e}");
    let n: NodeRc = to_node(&v).map_err(e("to_node"))?;
    let got = to_val(&n)?;
    if !got.same(&want) {
        return Err(format!("to_node gives {got:?}, expected {want:?}"));
    }
    let a: NodeArc = to_arc_node(&v).map_err(e("to_arc_node"))?;
    let s = to_string(&v).map_err(e("to_string"))?;
    let same = |what: &str, r: &Value| if *r == v { Ok(()) } else { Err(format!("{what} gives {r:#}\n{s:?}")) };
    same("the node", &Value::deserialize(n.clone()).map_err(e("from a node"))?)?;
    same("the Arc node", &Value::deserialize(a).map_err(e("from an Arc node"))?)?;
    let r = from_str::<Value>(&s).map_err(|e| format!("from_str: {e}\n{s:?}"))?;
    if r.len() != 1 {
        return Err(format!("{} values from {s:?}", r.len()));
    }
    same("the YAML text", &r[0])?;
    // The node written by the JSON library, both ways.
    let w = serde_json::to_value(&n).map_err(|e| format!("a node as JSON: {e}"))?;
    same("the node as JSON", &w)?;
    let t = serde_json::to_string_pretty(&n).map_err(|e| format!("a node as JSON text: {e}"))?;
    let w: Value = serde_json::from_str(&t).map_err(|e| format!("JSON text {t:?}: {e}"))?;
    if !close(&w, &v) {
        return Err(format!("the node as JSON text gives {w:#}\n{t:?}"));
    }
    let back = NodeRc::deserialize(v.clone()).map_err(|e| format!("a node from JSON: {e}"))?;
    if back != n {
        return Err(format!("the JSON value deserializes to {back:?}"));
    }
    for t in [v.to_string(), format!("{v:#}")] {
        expect_rc(&t, std::slice::from_ref(&want)).map_err(|e| format!("{e}\n{t:?}"))?;
    }
    Ok(())
}

/// Types whose values JSON can hold.
fn safe(t: &Ty) -> bool {
    match t {
        Ty::Map(k, v) => matches!(**k, Ty::Str | Ty::Char) && safe(v),
        Ty::Option(t) | Ty::Seq(t) | Ty::Newtype(t) => safe(t),
        Ty::Tuple(v) | Ty::TupleStruct(v) => v.iter().all(safe),
        Ty::Struct(f) => f.iter().all(|(_, t)| safe(t)),
        Ty::Enum(v) => v.iter().all(|(_, v)| match v {
            Variant::Unit => true,
            Variant::Newtype(t) => safe(t),
            Variant::Tuple(v) => v.iter().all(safe),
            Variant::Struct(f) => f.iter().all(|(_, t)| safe(t)),
        }),
        _ => true,
    }
}

/// The JSON text of typed data is read as that data.
fn typed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let depth = src.range(0, 4);
    let t = Ty::deep(src, depth);
    let d = t.value(src);
    let want = t.model(&d);
    let mut odd = false;
    each(&want, &mut |v| match v {
        Val::Float(f) => odd |= !f.is_finite(),
        // Only with data of any kind.
        Val::Map(m) => odd |= m.iter().any(|(k, _)| !matches!(k, Val::Str(_))),
        _ => {}
    });
    if !safe(&t) || odd {
        ctx.discarded = true;
        return Ok(());
    }
    let v = Typed(&t, &d);
    let pretty = src.chance(1, 2);
    let s = if pretty { serde_json::to_string_pretty(&v) } else { serde_json::to_string(&v) }.map_err(|e| format!("HARNESS: {e}"))?;
    announce(ctx, || format!("{t:?}\n{d:?}\n{s}\n{s:?}"));
    if t.size() > 1 {
        ctx.nontrivial(hash_str(&s));
    }
    let mut r = with_root(&t, || from_str::<Rooted>(&s)).map_err(|e| format!("from_str: {e}"))?;
    if r.len() != 1 {
        return Err(format!("from_str gives {} values", r.len()));
    }
    let got = r.remove(0).0;
    if got != d {
        return Err(format!("from_str gives {got:?}"));
    }
    let n = yshim::parse_rc(&s).map_err(|e| format!("rejected: {e}"))?.remove(0);
    match Seed(&t).deserialize(n) {
        Ok(x) if x == d => Ok(()),
        r => Err(format!("from the node: {r:?}")),
    }
}

pub fn property() -> Property {
    Property {
        id: "C19",
        rule: "a JSON text with a string or collection, a JSON value, or the JSON of a composed type, distinct by text",
        assumptions: &[
            "no repeated keys, which JSON leaves undefined",
            "`-0` is an integer for YAML and a float for serde_json: compared with the generated tree only",
        ],
        targets: vec![
            Target { name: "texts", f: texts, quick: 450_000, thorough: 4_000_000, guided: 0 },
            Target { name: "values", f: values, quick: 240_000, thorough: 2_000_000, guided: 0 },
            Target { name: "typed", f: typed, quick: 240_000, thorough: 2_000_000, guided: 0 },
        ],
    }
}

//! Generation and rendering of YAML documents whose meaning is known by
//! construction.
use std::fmt::Write as _;
use crate::{
    engine::Src,
    model::{resolve, Val},
};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    None,
    /// The node starts exactly here.
    At(usize),
    /// The node starts somewhere in this range (layout between header and content).
    Within(usize, usize),
}

#[derive(Clone, Debug)]
pub struct DNode {
    /// Source text of the tag and the tag it stands for.
    pub tag: Option<(String, String)>,
    pub anchor: Option<String>,
    pub anchor_first: bool,
    pub body: Body,
    pub pos: Cell<Pos>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chomp {
    Clip,
    Strip,
    Keep,
}

/// A run of words and the breaks between them (0 = space in the same line,
/// 1 = a line break, n = n-1 empty lines).
#[derive(Clone, Debug)]
pub struct Folded {
    pub words: Vec<String>,
    pub breaks: Vec<usize>,
}

#[derive(Clone, Debug)]
pub enum Body {
    Empty,
    Plain(String),
    Single(String),
    /// Content, and per char the way it is written (0 = raw when possible).
    Double(String, Vec<u8>),
    /// Multi-line flow scalar: quote char (0 for plain).
    Multi(u8, Folded),
    Block { literal: bool, chomp: Chomp, lines: Vec<(usize, String)>, tail: usize },
    FlowSeq(Vec<DNode>),
    FlowMap(Vec<(DNode, DNode)>),
    Seq(Vec<DNode>),
    Map(Vec<(DNode, DNode)>),
    Alias(String, Box<Val>),
}

impl DNode {
    pub fn new(body: Body) -> Self {
        DNode { tag: None, anchor: None, anchor_first: false, body, pos: Cell::new(Pos::None) }
    }
    pub fn is_block(&self) -> bool {
        matches!(self.body, Body::Seq(_) | Body::Map(_))
    }
    pub fn is_collection(&self) -> bool {
        self.is_block() || matches!(self.body, Body::FlowMap(_) | Body::FlowSeq(_))
    }
    fn has_props(&self) -> bool {
        self.tag.is_some() || self.anchor.is_some()
    }
    pub fn val(&self, cyclic: bool) -> Val {
        match &self.body {
            Body::Empty => Val::Null,
            Body::Plain(s) => resolve(s),
            Body::Single(s) | Body::Double(s, _) => Val::Str(s.clone()),
            Body::Multi(_, f) => {
                let v = f.value();
                Val::Str(v)
            }
            Body::Block { literal, chomp, lines, tail } => Val::Str(block_value(*literal, *chomp, lines, *tail)),
            Body::FlowSeq(v) | Body::Seq(v) => Val::Seq(v.iter().map(|n| n.val(cyclic)).collect()),
            Body::FlowMap(m) | Body::Map(m) => {
                let mut entries: Vec<(Val, Val)> = vec![];
                for (k, v) in m {
                    let k = k.val(cyclic);
                    // A repeated key replaces the earlier entry.
                    entries.retain(|(o, _)| !o.same(&k));
                    entries.push((k, v.val(cyclic)));
                }
                Val::Map(entries)
            }
            Body::Alias(n, v) => {
                if cyclic {
                    Val::Alias(n.clone())
                } else {
                    (**v).clone()
                }
            }
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a DNode)) {
        f(self);
        match &self.body {
            Body::FlowSeq(v) | Body::Seq(v) => v.iter().for_each(|n| n.walk(f)),
            Body::FlowMap(m) | Body::Map(m) => m.iter().for_each(|(k, v)| {
                k.walk(f);
                v.walk(f)
            }),
            _ => {}
        }
    }
    pub fn count(&self, p: &dyn Fn(&DNode) -> bool) -> usize {
        let mut n = 0;
        self.walk(&mut |d| n += p(d) as usize);
        n
    }
}

impl Folded {
    /// Line folding: a break is a space, n empty lines are n newlines.
    pub fn value(&self) -> String {
        let mut s = String::new();
        for (i, w) in self.words.iter().enumerate() {
            if i > 0 {
                match self.breaks[i - 1] {
                    0 | 1 => s.push(' '),
                    n => (1..n).for_each(|_| s.push('\n')),
                }
            }
            s.push_str(w);
        }
        s
    }
    pub fn multiline(&self) -> bool {
        self.breaks.iter().any(|b| *b > 0)
    }
}

/// `lines` are (extra indentation, text); an empty text is an empty line.
/// The folded style of this library joins lines with one space after dropping
/// their extra indentation; n empty lines become n newlines.
pub fn block_value(literal: bool, chomp: Chomp, lines: &[(usize, String)], tail: usize) -> String {
    let mut v = String::new();
    if literal {
        for (i, (e, t)) in lines.iter().enumerate() {
            if i > 0 {
                v.push('\n');
            }
            if !t.is_empty() {
                v.push_str(&" ".repeat(*e));
                v.push_str(t);
            }
        }
    } else {
        let mut blanks = 0;
        let mut first = true;
        for (_, t) in lines {
            if t.is_empty() {
                blanks += 1;
                continue;
            }
            if blanks > 0 {
                (0..blanks).for_each(|_| v.push('\n'));
            } else if !first {
                v.push(' ');
            }
            blanks = 0;
            first = false;
            v.push_str(t);
        }
    }
    match chomp {
        Chomp::Clip if lines.is_empty() => v,
        Chomp::Keep if lines.is_empty() => "\n".repeat(tail),
        Chomp::Strip => v,
        Chomp::Clip => v + "\n",
        Chomp::Keep => v + "\n" + &"\n".repeat(tail),
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub width: usize,
    pub tags: bool,
    pub anchors: bool,
    /// Aliases may name anchors that are not defined yet (cyclic mode only).
    pub free_alias: bool,
    pub block_scalars: bool,
    pub multiline: bool,
    pub complex_keys: bool,
    pub empties: bool,
    pub flow: bool,
    /// Repeated keys.
    pub dups: bool,
    /// Handles declared by %TAG: (handle text, prefix).
    pub handles: Vec<(String, String)>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            depth: 4,
            width: 4,
            tags: false,
            anchors: false,
            free_alias: false,
            block_scalars: false,
            multiline: false,
            complex_keys: true,
            empties: true,
            flow: true,
            dups: false,
            handles: vec![],
        }
    }
}

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub cfg: Cfg,
    pub defined: Vec<(String, Val)>,
    pub names: usize,
    /// A chain of nested collections was made.
    pub deep: bool,
}

const LETTERS: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', 'e', 'o', 'n', 'E', 'T', 'N', 'Q', '0', '1', '7', '9', 'é', '中', '🀄', 'ß', 'я',
];
/// Content for YAML, though Unicode calls them white.
const WIDE: &[char] = &['\u{3000}', '\u{a0}', '\u{2003}', '\u{85}', '\u{2028}'];
/// The white space of YAML.
pub fn blank(c: char) -> bool {
    c == ' ' || c == '\t'
}
/// Allowed inside a plain scalar (not first) in block and flow context.
const INNER: &[char] = &[
    '-', '_', '.', '/', '+', '%', '@', '(', ')', '=', ';', '\'', '"', '!', '*', '&', '~', '|', '>', '<', '?', '$', '^',
    '`', '\\', '#', ':', '\t',
];
const INNER_BLOCK: &[char] = &[',', '[', ']', '{', '}'];
/// Characters that may start a plain scalar without being an indicator.
const FIRST: &[char] = &['.', '/', '_', '(', '$', '+', '=', ';', '^', '<', '\\', '~', ')'];

pub fn plain_ok(s: &str, flow: bool) -> bool {
    let b: Vec<char> = s.chars().collect();
    if b.is_empty() || blank(b[0]) || blank(b[b.len() - 1]) {
        return false;
    }
    // An indicator may start the scalar if content is directly behind it.
    let tight = b.get(1).is_some_and(|c| !blank(*c) && !(flow && ",[]{}".contains(*c)));
    if ",[]{}#&*!|>'\"%@`".contains(b[0]) || "-?:".contains(b[0]) && !tight {
        return false;
    }
    for i in 0..b.len() {
        let next = b.get(i + 1);
        match b[i] {
            ':' if next.is_none_or(|c| blank(*c) || flow && ",[]{}".contains(*c)) => return false,
            '#' if blank(b[i - 1]) => return false,
            '\n' | '\r' => return false,
            c if flow && ",[]{}".contains(c) => return false,
            // Behind a number the value of a flow map can be adjacent.
            ':' if flow && looks_numeric(s.split(':').next().unwrap_or("")) => return false,
            _ => {}
        }
    }
    !s.starts_with("---") && !s.starts_with("...")
}

impl Gen<'_> {
    pub fn word(&mut self, flow: bool, first: bool) -> String {
        let n = 1 + self.src.len(6);
        let mut s = String::new();
        for i in 0..n {
            let c = if i == 0 && first {
                if self.src.chance(1, 10) {
                    *self.src.pick(FIRST)
                } else if self.src.chance(1, 40) {
                    *self.src.pick(WIDE)
                } else {
                    *self.src.pick(LETTERS)
                }
            } else if self.src.chance(1, 24) {
                *self.src.pick(WIDE)
            } else if self.src.chance(1, 4) {
                if !flow && self.src.chance(1, 4) {
                    *self.src.pick(INNER_BLOCK)
                } else {
                    *self.src.pick(INNER)
                }
            } else {
                *self.src.pick(LETTERS)
            };
            s.push(c);
        }
        self.src.stretch(&mut s, 240);
        s
    }

    /// A plain scalar that is a string.
    pub fn plain_string(&mut self, flow: bool) -> String {
        let n = 1 + self.src.weighted(&[6, 3, 2, 1]);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                let k = 1 + self.src.chance(1, 8) as usize;
                let k = self.src.big(k, 100);
                s.push_str(&" ".repeat(k));
            }
            s.push_str(&self.word(flow, i == 0));
        }
        if self.src.chance(1, 16) {
            s.insert(0, *self.src.pick(&['-', '?', ':', '-', '?']));
        }
        let mut s: String = s.trim_matches(blank).to_string();
        // Repair what would change the meaning.
        let mut guard = 0;
        while !plain_ok(&s, flow) && guard < 8 {
            s = s.replace(": ", ":w ").replace(" #", " w#").replace(":\t", ":w").replace("\t#", "w#");
            if flow && guard > 0 {
                s = s.replace(':', ".");
            }
            if s.ends_with(':') {
                s.push('w');
            }
            if s.is_empty() || !plain_ok(&s, flow) {
                s.insert(0, 'w');
            }
            s = s.trim_matches(blank).to_string();
            guard += 1;
        }
        if !plain_ok(&s, flow) {
            s = "word".into();
        }
        if resolve(&s) != Val::Str(s.clone()) || looks_numeric(&s) {
            s.push('w');
        }
        s
    }

    pub fn int_text(&mut self) -> String {
        match self.src.weighted(&[6, 3, 2, 2, 1]) {
            0 => self.src.below(100).to_string(),
            1 => format!("-{}", self.src.below(1000)),
            2 => {
                let v = self.src.u64() >> self.src.range(1, 60);
                if self.src.chance(1, 2) {
                    format!("0x{v:x}")
                } else {
                    format!("0x{v:X}")
                }
            }
            3 => format!("0o{:o}", self.src.u64() >> self.src.range(1, 60)),
            _ => match self.src.below(4) {
                0 => i64::MAX.to_string(),
                1 => i64::MIN.to_string(),
                2 => {
                    let w = self.src.big(2, 200);
                    format!("{}{}", "0".repeat(w), self.src.below(100))
                }
                _ => "-0".into(),
            },
        }
    }

    pub fn float_text(&mut self) -> String {
        let i = if self.src.chance(1, 6) { *self.src.pick(&[0, 0, 10, 100, 120]) } else { self.src.below(1000) };
        let neg = if self.src.chance(1, 3) { "-" } else { "" };
        match self.src.weighted(&[5, 2, 2, 2, 2, 2, 1]) {
            6 => {
                let f = *self.src.pick(&["0", "00", "000", "10", "01", "50", "0e0", "0e5", "e400", "e-400"]);
                format!("{neg}{i}.{f}")
            }
            0 => format!("{neg}{i}.{}", self.src.below(1000)),
            1 => format!("{neg}{i}.0"),
            2 => format!("{neg}{i}."),
            3 => {
                let e = *self.src.pick(&["e", "E", "e+", "e-", "E-", "E+"]);
                format!("{neg}{i}{e}{}", self.src.below(30))
            }
            4 => {
                let e = *self.src.pick(&["e", "E", "e+", "e-", "E-", "E+"]);
                format!("{neg}{i}.{}{e}{}", self.src.below(100), self.src.below(30))
            }
            _ => {
                (*self.src.pick(&[".nan", ".NaN", ".NAN", ".inf", ".Inf", ".INF", "-.inf", "-.Inf", "-.INF"])).into()
            }
        }
    }

    pub fn any_char(&mut self) -> char {
        match self.src.weighted(&[10, 6, 3, 2]) {
            0 => *self.src.pick(LETTERS),
            1 => *self.src.pick(&[
                ' ', '-', ':', '#', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '@', '`', '?', '.', '~', '/',
                '=', '<', '(', ')', '\'', '"', '\\',
            ]),
            2 => *self.src.pick(&[' ', ':', '#', '\'', '"', '\\', '-']),
            _ => *self.src.pick(&['\t', '\u{85}', '\u{a0}', '\u{2028}', '\0', '\x07', '\x0B', '\x1B', '\u{2029}', '\u{feff}', '\u{1}', '\u{7f}', '\u{10ffff}']),
        }
    }

    /// Any single-line text.
    pub fn line_text(&mut self, max: usize) -> String {
        let n = self.src.len(max);
        let mut s = (0..n).map(|_| self.any_char()).collect();
        self.src.stretch(&mut s, 600);
        s
    }

    pub fn single(&mut self) -> Body {
        let s = self.line_text(10);
        Body::Single(s)
    }

    pub fn double(&mut self) -> Body {
        let n = self.src.len(10);
        let n = self.src.big(n, 300);
        let mut s = String::new();
        let mut w = vec![];
        for _ in 0..n {
            let c = if self.src.chance(1, 6) {
                *self.src.pick(&['\n', '\r', '\t', '\u{8}', '\u{c}', '\\', '"'])
            } else {
                self.any_char()
            };
            s.push(c);
            w.push(if self.src.chance(1, 4) { 3 + self.src.below(6) as u8 } else { self.src.below(3) as u8 });
        }
        Body::Double(s, w)
    }

    pub fn folded(&mut self, q: u8) -> Folded {
        let n = self.src.range(2, 5);
        let mut words = vec![];
        let mut breaks = vec![];
        for i in 0..n {
            let mut w = if q == 0 {
                let w = self.word(false, i == 0);
                // A word may begin a line: keep it free of indicators.
                let w: String = w.chars().filter(|c| !blank(*c) && !":#".contains(*c)).collect();
                let w = w.trim_matches(|c: char| "-?,[]{}&*!|>'\"%@`.".contains(c)).to_string();
                if w.is_empty() {
                    "w".into()
                } else {
                    w
                }
            } else {
                let w = self.word(false, false);
                w.chars().filter(|c| !blank(*c) && *c != '\\' && *c != char::from(q)).collect::<String>()
            };
            if w.is_empty() {
                w = "v".into();
            }
            words.push(w);
            if i > 0 {
                let b = self.src.weighted(&[2, 4, 2, 1]);
                breaks.push(self.src.big(b, 40));
            }
        }
        if !breaks.iter().any(|b| *b > 0) {
            breaks[0] = 1;
        }
        // A plain scalar must stay a string.
        words[0].insert(0, 'p');
        Folded { words, breaks }
    }

    pub fn block_scalar(&mut self) -> Body {
        let literal = self.src.chance(1, 2);
        let chomp = *self.src.pick(&[Chomp::Clip, Chomp::Strip, Chomp::Keep]);
        let n = self.src.range(1, 5);
        let n = self.src.big(n, 60);
        let mut lines = vec![];
        // Without any line there is no content.
        let n = if self.src.chance(1, 12) { 0 } else { n };
        for i in 0..n {
            if i + 1 < n && self.src.chance(1, if i > 0 { 3 } else { 10 }) {
                lines.push((0, String::new()));
                continue;
            }
            let t = self.line_text(10);
            let t = t.trim_matches(blank).to_string();
            let t = if t.is_empty() { "t".to_string() } else { t };
            let extra = if lines.iter().any(|l: &(usize, String)| !l.1.is_empty()) && self.src.chance(1, 4) { self.src.range(1, 3) } else { 0 };
            let extra = if extra > 0 { self.src.big(extra, 60) } else { 0 };
            lines.push((extra, t));
        }
        let tail = self.src.weighted(&[3, 1, 1]);
        let tail = self.src.big(tail, 50);
        Body::Block { literal, chomp, lines, tail }
    }

    pub fn scalar(&mut self, flow: bool) -> Body {
        match self.src.weighted(&[8, 3, 2, 3, 3, 3]) {
            0 => Body::Plain(self.plain_string(flow)),
            1 => Body::Plain(self.int_text()),
            2 => Body::Plain(self.float_text()),
            3 => {
                let w = *self.src.pick(&[
                    "~", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE",
                ]);
                Body::Plain(w.into())
            }
            4 => self.single(),
            _ => self.double(),
        }
    }

    fn props(&mut self, n: &mut DNode, tag: bool, anchor: bool) {
        if tag && self.cfg.tags && self.src.chance(1, 3) {
            n.tag = Some(self.tag());
        }
        if anchor && self.cfg.anchors && self.src.chance(1, 3) {
            let name = self.anchor_name();
            n.anchor = Some(name);
            n.anchor_first = self.src.chance(1, 2);
        }
    }

    pub fn ident(&mut self) -> String {
        let n = self.src.range(0, 5);
        let n = self.src.big(n, 100);
        let mut s = String::from(*self.src.pick(&['a', 'x', 'T', '7', 'q', '_']));
        for _ in 0..n {
            s.push(*self.src.pick(&['a', 'b', 'Z', '0', '-', '9', '_']));
        }
        s
    }

    fn anchor_name(&mut self) -> String {
        self.names += 1;
        let i = self.ident();
        format!("{i}{}", self.names)
    }

    pub fn tag(&mut self) -> (String, String) {
        let handles = self.cfg.handles.clone();
        let find = |h: &str| handles.iter().rev().find(|(k, _)| k == h).map(|(_, p)| p.clone());
        let id = self.ident();
        match self.src.weighted(&[3, 2, 2, if handles.is_empty() { 0 } else { 5 }]) {
            0 => (format!("!{id}"), format!("{}{id}", find("!").unwrap_or_default())),
            1 => (format!("!!{id}"), format!("{}{id}", find("!!").unwrap_or("tag:yaml.org,2002:".into()))),
            2 => {
                let n = self.src.range(1, 8);
                let n = self.src.big(n, 200);
                let mut s = String::from("t");
                for _ in 0..n {
                    s.push(*self.src.pick(&['a', ':', '/', '.', ',', '-', '!', '#', '%', '2', 'é']));
                }
                (format!("!<{s}>"), s)
            }
            _ => {
                let (h, p) = handles[self.src.usize(handles.len())].clone();
                let p = find(&h).unwrap_or(p);
                (format!("{h}{id}"), format!("{p}{id}"))
            }
        }
    }

    fn alias(&mut self) -> Option<DNode> {
        if !self.cfg.anchors || self.defined.is_empty() || !self.src.chance(1, 4) {
            return None;
        }
        let (n, v) = self.defined[self.src.usize(self.defined.len())].clone();
        Some(DNode::new(Body::Alias(n, Box::new(v))))
    }

    fn finish(&mut self, n: DNode) -> DNode {
        if let Some(a) = &n.anchor {
            self.defined.push((a.clone(), n.val(false)));
        }
        n
    }

    fn key(&mut self, flow: bool, first: bool, depth: usize) -> DNode {
        let body = match self.src.weighted(&[10, 2, 2, 2, 1, 1]) {
            0 => Body::Plain(self.plain_string(flow)),
            1 => self.single(),
            2 => self.double(),
            3 => Body::Plain(self.int_text()),
            4 => self.scalar(flow),
            _ if self.cfg.flow && depth > 0 => {
                let n = self.flow_node(depth - 1);
                // Its own anchor is not written.
                self.defined.retain(|(x, _)| Some(x) != n.anchor.as_ref());
                n.body
            }
            _ => Body::Plain(self.plain_string(flow)),
        };
        let mut n = DNode::new(body);
        if matches!(n.body, Body::Alias(..)) {
            // An alias has no properties.
        } else if !first && !flow || flow && self.src.chance(1, 4) {
            self.props(&mut n, true, true);
        }
        self.finish(n)
    }

    fn distinct(&mut self, m: &[(DNode, DNode)], k: DNode) -> Option<DNode> {
        if self.cfg.dups {
            if !m.is_empty() && self.src.chance(1, 6) {
                return Some(m[self.src.usize(m.len())].0.clone());
            }
            return Some(k);
        }
        let kv = k.val(false);
        if m.iter().any(|(o, _)| key_clash(&o.val(false), &kv)) {
            // The anchor, if any, is never written.
            if let Some(a) = &k.anchor {
                self.defined.retain(|(n, _)| n != a);
            }
            let mut inner: Vec<String> = vec![];
            k.walk(&mut |d| inner.extend(d.anchor.clone()));
            self.defined.retain(|(n, _)| !inner.contains(n));
            return None;
        }
        Some(k)
    }

    pub fn flow_node(&mut self, depth: usize) -> DNode {
        if let Some(a) = self.alias() {
            return a;
        }
        let mut n = DNode::new(Body::Empty);
        self.props(&mut n, true, true);
        let kind = if depth == 0 { 0 } else { self.src.weighted(&[4, 2, 2]) };
        n.body = match kind {
            0 => self.scalar(true),
            1 => {
                let (w, depth) = self.src.wide(self.cfg.width, depth - 1);
                Body::FlowSeq((0..w).map(|_| self.flow_node(depth)).collect())
            }
            _ => {
                let (w, depth) = self.src.wide(self.cfg.width, depth - 1);
                let mut m: Vec<(DNode, DNode)> = vec![];
                for i in 0..w {
                    let k = self.key(true, i == 0, depth);
                    let Some(k) = self.distinct(&m, k) else { continue };
                    let v = if self.cfg.empties && self.src.chance(1, 10) {
                        DNode::new(Body::Empty)
                    } else {
                        self.flow_node(depth)
                    };
                    m.push((k, v));
                }
                Body::FlowMap(m)
            }
        };
        let n = self.finish(n);
        self.nest(n, true)
    }

    /// Wraps the node in many collections now and then.
    fn nest(&mut self, mut n: DNode, flow: bool) -> DNode {
        if self.deep {
            return n;
        }
        let k = self.src.big(0, 60);
        if k > 0 {
            self.deep = true;
            let kinds = self.src.u64();
            for i in 0..k {
                let map = kinds >> (i % 64) & 1 > 0;
                let key = DNode::new(Body::Plain("k".into()));
                n = DNode::new(match (map, flow) {
                    (true, true) => Body::FlowMap(vec![(key, n)]),
                    (true, false) => Body::Map(vec![(key, n)]),
                    (false, true) => Body::FlowSeq(vec![n]),
                    (false, false) => Body::Seq(vec![n]),
                });
            }
        }
        n
    }

    /// Any node in a block position.
    pub fn block_node(&mut self, depth: usize, root: bool) -> DNode {
        if !root {
            if let Some(a) = self.alias() {
                return a;
            }
            if self.cfg.empties && self.src.chance(1, 14) {
                return DNode::new(Body::Empty);
            }
        }
        let mut n = DNode::new(Body::Empty);
        self.props(&mut n, true, true);
        let c = &self.cfg;
        let w = [
            4,
            if c.flow { 2 } else { 0 },
            if depth > 0 { 5 } else { 0 },
            if depth > 0 { 5 } else { 0 },
            if c.block_scalars { 3 } else { 0 },
            if c.multiline { 3 } else { 0 },
        ];
        n.body = match self.src.weighted(&w) {
            0 => self.scalar(false),
            1 => {
                let mut inner = self.flow_node(depth.clamp(1, 3));
                if inner.anchor.is_some() || inner.tag.is_some() || matches!(inner.body, Body::Alias(..)) {
                    // Properties belong to one node only.
                    self.defined.retain(|(x, _)| Some(x) != inner.anchor.as_ref());
                    inner.anchor = None;
                }
                match inner.body {
                    Body::Alias(..) => Body::Plain("noalias".into()),
                    b => b,
                }
            }
            2 => {
                let (w, depth) = self.src.wide(self.cfg.width - 1, depth - 1);
                let mut m: Vec<(DNode, DNode)> = vec![];
                for i in 0..w + 1 {
                    let k = if self.cfg.complex_keys && self.src.chance(1, 12) {
                        self.block_node(depth, false)
                    } else {
                        self.key(false, i == 0, (depth + 1).min(2))
                    };
                    let Some(k) = self.distinct(&m, k) else { continue };
                    let v = self.block_node(depth, false);
                    m.push((k, v));
                }
                if m.is_empty() {
                    let k = DNode::new(Body::Plain("only".into()));
                    m.push((k, DNode::new(Body::Plain("one".into()))));
                }
                Body::Map(m)
            }
            3 => {
                let (w, depth) = self.src.wide(self.cfg.width - 1, depth - 1);
                Body::Seq((0..w + 1).map(|_| self.block_node(depth, false)).collect())
            }
            4 => self.block_scalar(),
            _ => {
                let q = *self.src.pick(&[0u8, b'\'', b'"']);
                Body::Multi(q, self.folded(q))
            }
        };
        let n = self.finish(n);
        self.nest(n, false)
    }
}

/// Keys that the library may treat as the same key.
pub fn key_clash(a: &Val, b: &Val) -> bool {
    a.same(b)
}

/// Texts whose type is not settled by the documented forms (e.g. `+5`, `.5`).
pub fn looks_numeric(s: &str) -> bool {
    let t = s.trim_start_matches(['+', '-']);
    let t = t.strip_prefix('.').unwrap_or(t);
    t.chars().next().is_some_and(|c| c.is_ascii_digit())
        && t.chars().all(|c| c.is_ascii_hexdigit() || "._+-xXoOeE:,abcdefABCDEF".contains(c))
}

// ---------------------------------------------------------------- rendering

#[derive(Clone, Copy)]
pub struct Style {
    pub noise: bool,
    /// What ends a line.
    pub nl: &'static str,
    /// Vary indentation and spacing (otherwise two columns, one space).
    pub vary: bool,
}

#[derive(Clone, Copy)]
pub struct Hold {
    blank: bool,
    comment: bool,
}

pub struct Ren<'a> {
    pub src: &'a mut Src,
    pub st: Style,
    pub out: String,
    /// A block scalar was just written: what may follow without being part of it.
    hold: Option<Hold>,
}

/// Escapes by name.
const NAMED: &[(char, char)] = &[
    ('0', '\0'),
    ('a', '\x07'),
    ('v', '\x0B'),
    ('e', '\x1B'),
    ('N', '\u{85}'),
    ('_', '\u{A0}'),
    ('L', '\u{2028}'),
    ('P', '\u{2029}'),
    ('/', '/'),
    (' ', ' '),
    ('t', '\t'),
    ('b', '\x08'),
    ('f', '\x0C'),
    ('\t', '\t'),
];

const COMMENTS: &[&str] = &[
    "", " c", "comment", " a: b", " - x", " \"q", " 'q", " [", " }", " &a *b !c", " ---", " 中文 # x", "#", " ? k", "\t|", " >- x", " {a", " ]", " %TAG ! x", " ...", "!", "\\",
    " \0 x", "\u{7f}", " \u{85}x", "\u{2028}", "\u{feff}", "\x0C\x0B",
];

fn doc_mark(line: &str) -> bool {
    let rest = line.strip_prefix("---").or(line.strip_prefix("..."));
    rest.is_some_and(|r| r.chars().next().is_none_or(char::is_whitespace))
}

impl<'a> Ren<'a> {
    pub fn new(src: &'a mut Src, st: Style) -> Self {
        Ren { src, st, out: String::new(), hold: None }
    }
    pub fn nl(&mut self) {
        self.out.push_str(self.st.nl);
    }
    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    /// Separation within a line.
    fn gapsp(&mut self) {
        let n = if self.st.vary && self.src.chance(1, 8) { self.src.range(2, 4) } else { 1 };
        let n = if self.st.vary { self.src.big(n, 200) } else { n };
        if self.st.vary && self.src.chance(1, 24) {
            self.out.push('\t');
            self.sp(n - 1);
        } else {
            self.sp(n);
        }
    }
    fn step(&mut self, min: usize) -> usize {
        if self.st.vary {
            match self.src.weighted(&[4, 4]) {
                0 => 2.max(min),
                _ => {
                    let n = self.src.range(min, 6);
                    self.src.big(n, 60)
                }
            }
        } else {
            2
        }
    }
    /// End the current line.
    pub fn eol(&mut self) {
        if self.st.noise {
            match self.src.weighted(&[8, 1, 2]) {
                0 => {}
                k => {
                    let n = self.src.range(1, 3);
                    let n = self.src.big(n, 200);
                    let tab = self.src.below(8);
                    if tab & 6 == 6 {
                        self.out.push('\t');
                    }
                    if tab != 6 {
                        self.sp(n);
                    }
                    if tab == 5 {
                        self.out.push('\t');
                    }
                    if k == 1 {
                        self.nl();
                        return;
                    }
                    self.out.push('#');
                    let c = *self.src.pick(COMMENTS);
                    self.out.push_str(c);
                }
            }
        }
        self.nl();
    }
    /// Comment and blank lines between entries.
    pub fn noise(&mut self) {
        if !self.st.noise {
            return;
        }
        let n = self.src.weighted(&[8, 2, 1]);
        let n = self.src.big(n, 90);
        for _ in 0..n {
            let ind = self.src.range(0, 6);
            let ind = self.src.big(ind, 90);
            let blank = self.src.chance(1, 2);
            match self.hold {
                None if blank => {
                    if self.src.chance(1, 4) {
                        self.sp(ind);
                    }
                }
                Some(h) if blank || !h.comment => {
                    if !h.blank {
                        continue;
                    }
                }
                h => {
                    // At column 0 the line cannot belong to the scalar above.
                    if h.is_none() {
                        self.sp(ind);
                    }
                    self.hold = None;
                    self.out.push('#');
                    let mut c = self.src.pick(COMMENTS).to_string();
                    self.src.stretch(&mut c, 3000);
                    if c.len() > 2000 && self.src.chance(1, 4) {
                        // Positions behind it need more than 16 bits.
                        c = c.repeat(70_000 / c.len());
                    }
                    self.out.push_str(&c);
                }
            }
            self.nl();
        }
    }
    fn props(&mut self, n: &DNode) {
        let t = n.tag.as_ref().map(|t| t.0.clone());
        let a = n.anchor.as_ref().map(|a| format!("&{a}"));
        let (x, y) = if n.anchor_first { (a, t) } else { (t, a) };
        let mut first = true;
        for p in [x, y].into_iter().flatten() {
            if !first {
                self.gapsp();
            }
            self.out.push_str(&p);
            first = false;
        }
    }
    fn here(&self, n: &DNode) {
        n.pos.set(Pos::At(self.out.len()));
    }

    fn double(&mut self, s: &str, w: &[u8]) {
        self.out.push('"');
        for (i, c) in s.chars().enumerate() {
            let how = w.get(i).copied().unwrap_or(0);
            let n = u32::from(c);
            let named = NAMED.iter().find(|p| p.1 == c).map(|p| p.0);
            match c {
                c if how == 3 && named.is_some() => {
                    self.out.push('\\');
                    self.out.push(named.unwrap_or(c));
                }
                _ if how == 4 && n < 256 => write!(self.out, "\\x{n:02x}").unwrap(),
                _ if how == 5 && n < 256 => write!(self.out, "\\x{n:02X}").unwrap(),
                _ if how == 6 && n < 65536 => write!(self.out, "\\u{n:04x}").unwrap(),
                c if how == 6 => c.encode_utf16(&mut [0; 2]).iter().for_each(|n| write!(self.out, "\\u{n:04X}").unwrap()),
                _ if how == 7 => write!(self.out, "\\U{n:08x}").unwrap(),
                '\n' => self.out.push_str("\\n"),
                '\r' => self.out.push_str("\\r"),
                '"' => self.out.push_str("\\\""),
                '\\' => self.out.push_str("\\\\"),
                '\u{8}' if how > 0 => self.out.push_str("\\b"),
                '\u{c}' if how > 0 => self.out.push_str("\\f"),
                '\t' if how > 0 => self.out.push_str("\\t"),
                '/' if how > 1 => self.out.push_str("\\/"),
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }

    /// A scalar that fits in one line (also in flow and as a key).
    fn inline_scalar(&mut self, n: &DNode) {
        match &n.body {
            Body::Empty => {}
            Body::Plain(s) => self.out.push_str(s),
            Body::Single(s) => {
                self.out.push('\'');
                self.out.push_str(&s.replace('\'', "''"));
                self.out.push('\'');
            }
            Body::Double(s, w) => self.double(&s.clone(), &w.clone()),
            Body::Alias(a, _) => {
                self.out.push('*');
                self.out.push_str(a);
            }
            b => unreachable!("not inline: {b:?}"),
        }
    }

    fn flow_gap(&mut self, ind: usize, nl_ok: bool) {
        if !self.st.vary {
            return;
        }
        match self.src.weighted(&[8, 3, 1]) {
            0 => {}
            1 => {
                let n = self.src.big(1, 100);
                self.sp(n)
            }
            _ => {
                if nl_ok {
                    self.flow_nl(ind);
                } else {
                    self.sp(2);
                }
            }
        }
    }
    /// The next line of a flow collection.
    fn flow_nl(&mut self, ind: usize) {
        self.eol();
        if self.st.noise && self.src.chance(1, 6) {
            let n = self.src.range(0, 3);
            self.sp(n);
            self.out.push('#');
            let c = *self.src.pick(COMMENTS);
            self.out.push_str(c);
            self.nl();
        }
        let n = self.src.range(0, 3);
        let n = ind + 1 + self.src.big(n, 60);
        self.sp(n);
    }
    /// Separation in flow collections.
    fn flow_sep(&mut self, ind: usize, nl_ok: bool) {
        if nl_ok && self.st.vary && self.src.chance(1, 16) {
            self.flow_nl(ind);
        } else {
            self.gapsp();
        }
    }

    /// A node written inline in flow style. `nl_ok`: line breaks are allowed.
    pub fn flow(&mut self, n: &DNode, ind: usize, nl_ok: bool) {
        self.flow_in(n, ind, nl_ok, false);
    }

    fn flow_in(&mut self, n: &DNode, ind: usize, nl_ok: bool, inner: bool) {
        self.props(n);
        if n.has_props() && !matches!(n.body, Body::Empty) {
            self.flow_sep(ind, nl_ok && inner);
        }
        self.flow_body(n, ind, nl_ok);
    }

    fn flow_body(&mut self, n: &DNode, ind: usize, nl_ok: bool) {
        self.here(n);
        match &n.body {
            Body::FlowSeq(v) => {
                self.out.push('[');
                self.flow_gap(ind, nl_ok);
                for (i, c) in v.iter().enumerate() {
                    match &c.body {
                        // A map of a single pair needs no braces.
                        Body::FlowMap(m) if m.len() == 1 && !c.has_props() && self.st.vary && self.src.chance(1, 3) => {
                            self.here(c);
                            let explicit = self.src.chance(1, 4);
                            self.flow_pair(&m[0].0, &m[0].1, ind, nl_ok, explicit, explicit);
                        }
                        _ => {
                            self.flow_in(c, ind, nl_ok, true);
                            self.flow_gap(ind, nl_ok);
                        }
                    }
                    if i + 1 < v.len() {
                        self.out.push(',');
                        if self.st.vary {
                            self.flow_gap(ind, nl_ok);
                        } else {
                            self.sp(1);
                        }
                    } else if self.st.vary && self.src.chance(1, 6) {
                        self.out.push(',');
                        self.flow_gap(ind, nl_ok);
                    }
                }
                self.out.push(']');
            }
            Body::FlowMap(m) => {
                self.out.push('{');
                self.flow_gap(ind, nl_ok);
                for (i, (k, v)) in m.iter().enumerate() {
                    let explicit = self.st.vary && self.src.chance(1, 16);
                    self.flow_pair(k, v, ind, nl_ok, explicit, true);
                    if i + 1 < m.len() {
                        self.out.push(',');
                        if self.st.vary {
                            self.flow_gap(ind, nl_ok);
                        } else {
                            self.sp(1);
                        }
                    } else if self.st.vary && self.src.chance(1, 6) {
                        self.out.push(',');
                        self.flow_gap(ind, nl_ok);
                    }
                }
                self.out.push('}');
            }
            _ => self.inline_scalar(n),
        }
    }

    /// A pair of a flow collection. `single`: the splitter can be left out.
    fn flow_pair(&mut self, k: &DNode, v: &DNode, ind: usize, nl_ok: bool, explicit: bool, single: bool) {
        if explicit {
            self.out.push('?');
            self.flow_sep(ind, nl_ok);
        }
        // The implicit key of a sequence item is in one line.
        let key_nl = nl_ok && single;
        self.flow_in(k, ind, key_nl, explicit);
        let quoted = matches!(k.body, Body::Single(_) | Body::Double(..));
        let empty = matches!(v.body, Body::Empty) && !v.has_props();
        if matches!(k.body, Body::Alias(..)) || self.st.vary && self.src.chance(1, 10) {
            self.sp(1);
        }
        if key_nl && self.st.vary && !matches!(k.body, Body::Empty) && self.src.chance(1, 12) {
            self.flow_gap(ind, true);
        }
        let a = self.out.len();
        if single && empty && self.st.vary && self.src.chance(1, 4) {
            self.flow_gap(ind, nl_ok);
            v.pos.set(Pos::Within(a, self.out.len()));
            return;
        }
        self.out.push(':');
        let adjacent = empty || quoted || !v.has_props() && matches!(v.body, Body::FlowSeq(_) | Body::FlowMap(_));
        if !(adjacent && self.st.vary && self.src.chance(1, 3)) {
            self.flow_sep(ind, nl_ok);
        }
        let a = self.out.len();
        self.flow_in(v, ind, nl_ok, true);
        self.flow_gap(ind, nl_ok);
        if matches!(v.body, Body::Empty) {
            v.pos.set(Pos::Within(a, self.out.len()));
        }
    }

    fn is_inline(n: &DNode) -> bool {
        !n.is_block() && !matches!(n.body, Body::Block { .. } | Body::Multi(..))
    }

    fn multi(&mut self, n: &DNode, ind: usize) {
        let Body::Multi(q, f) = &n.body else { unreachable!() };
        self.here(n);
        if *q != 0 {
            self.out.push(char::from(*q));
        }
        for (i, w) in f.words.iter().enumerate() {
            if i > 0 {
                match f.breaks[i - 1] {
                    0 => self.out.push(' '),
                    b => {
                        if self.st.vary && self.src.chance(1, 6) {
                            let s = *self.src.pick(&["  ", "\t", " \t"]);
                            self.out.push_str(s);
                        }
                        self.nl();
                        for _ in 1..b {
                            if self.st.vary && self.src.chance(1, 4) {
                                let s = *self.src.pick(&["   ", " ", "\t", "  \t"]);
                                self.out.push_str(s);
                            }
                            self.nl();
                        }
                        let extra = if self.st.vary { self.src.range(0, 3) } else { 0 };
                        let extra = if self.st.vary { self.src.big(extra, 60) } else { 0 };
                        let min = usize::from(doc_mark(w));
                        self.sp((ind + extra).max(min));
                        if self.st.vary && self.src.chance(1, 8) {
                            self.out.push('\t');
                        }
                    }
                }
            }
            self.out.push_str(w);
        }
        if *q != 0 {
            self.out.push(char::from(*q));
        }
        self.eol();
    }

    fn block_scalar(&mut self, n: &DNode, min: usize, ind: usize) {
        let Body::Block { literal, chomp, lines, tail } = &n.body else { unreachable!() };
        self.here(n);
        self.out.push(if *literal { '|' } else { '>' });
        match chomp {
            Chomp::Clip => {}
            Chomp::Strip => self.out.push('-'),
            Chomp::Keep => self.out.push('+'),
        }
        if self.st.vary && self.src.chance(1, 8) {
            self.sp(2);
            if self.src.chance(1, 2) {
                self.out.push_str("# header");
            }
        }
        self.nl();
        let ind = if self.st.vary && self.src.chance(1, 3) { self.src.range(min, min + 4) } else { min.max(ind) };
        let ind = if self.st.vary { self.src.big(ind, ind + 40).max(ind) } else { ind };
        // At column 0 these would be document marks.
        let ind = if lines.iter().any(|(e, t)| *e == 0 && doc_mark(t)) { ind.max(1) } else { ind };
        for (e, t) in lines {
            if !t.is_empty() {
                self.sp(ind + e);
                self.out.push_str(t);
            } else if self.st.vary && self.src.chance(1, 6) {
                let k = self.src.range(0, ind);
                self.sp(k);
            }
            self.nl();
        }
        for _ in 0..*tail {
            if self.st.vary && self.src.chance(1, 4) {
                // Blanks up to the indentation, any of them without content.
                let k = self.src.range(0, if lines.is_empty() { ind + 4 } else { ind });
                self.sp(k);
            }
            self.nl();
        }
        self.hold = Some(Hold { blank: *chomp != Chomp::Keep, comment: if lines.is_empty() { min > 0 } else { ind > 0 } });
    }

    /// Key or value content behind an indicator (`:`, `-`, `?`), up to and
    /// including the end of line. `ind` is the column of the parent's entries.
    fn content(&mut self, n: &DNode, ind: usize, after: char) {
        let start = self.out.len();
        match &n.body {
            Body::Empty => {
                if n.has_props() {
                    self.gapsp();
                    self.props(n);
                }
                self.eol();
                n.pos.set(Pos::Within(start, self.out.len()));
            }
            Body::Map(_) | Body::Seq(_) => {
                let can = match after {
                    '-' | ';' => true,
                    // The entry of an explicit map is the key in one line.
                    '?' => matches!(n.body, Body::Seq(_)),
                    _ => false,
                };
                let often = if after == '-' { 4 } else { 2 };
                let compact = can && !n.has_props() && (after == '-' && !self.st.vary || self.st.vary && !self.src.chance(1, often));
                if compact {
                    let k = if self.st.vary && self.src.chance(1, 5) { self.src.range(2, 5) } else { 1 };
                    let k = if self.st.vary { self.src.big(k, 60) } else { k };
                    self.sp(k);
                    self.here(n);
                    match &n.body {
                        Body::Map(m) => self.map(m, ind + 1 + k, true),
                        Body::Seq(v) => self.seq(v, ind + 1 + k, true),
                        _ => unreachable!(),
                    }
                    return;
                }
                if n.has_props() {
                    self.gapsp();
                    self.props(n);
                }
                let a = self.out.len();
                self.eol();
                n.pos.set(Pos::Within(a, self.out.len()));
                match &n.body {
                    Body::Map(m) => {
                        let s = self.step(1);
                        self.map(m, ind + s, false)
                    }
                    Body::Seq(v) => {
                        let s = self.step(if matches!(after, ':' | ';') { 0 } else { 1 });
                        self.seq(v, ind + s, false)
                    }
                    _ => unreachable!(),
                }
            }
            Body::Block { .. } => {
                let own = self.lead(n, ind);
                self.block_scalar(n, ind + 1, ind + 2);
                if let Some(a) = own {
                    n.pos.set(a);
                }
            }
            Body::Multi(..) => {
                let own = self.lead(n, ind);
                self.multi(n, ind + 2);
                if let Some(a) = own {
                    n.pos.set(a);
                }
            }
            _ => {
                let own = self.lead(n, ind);
                self.flow_body(n, ind, true);
                if let Some(a) = own {
                    n.pos.set(a);
                }
                self.eol();
            }
        }
    }

    /// The properties behind an indicator. The content can be on its own line:
    /// then returns where the node may start.
    fn lead(&mut self, n: &DNode, ind: usize) -> Option<Pos> {
        if !self.st.vary || !self.src.chance(1, 16) {
            self.gapsp();
            self.props(n);
            if n.has_props() {
                self.gapsp();
            }
            return None;
        }
        let ahead = n.has_props() && self.src.chance(1, 2);
        if ahead {
            self.gapsp();
            self.props(n);
        }
        let a = self.out.len();
        self.eol();
        self.noise();
        let s = self.step(1);
        self.sp(ind + s);
        if n.has_props() && !ahead {
            self.props(n);
            self.gapsp();
            return None;
        }
        Some(Pos::Within(a, self.out.len()))
    }

    fn entry_start(&mut self, ind: usize) {
        self.noise();
        self.hold = None;
        self.sp(ind);
    }

    pub fn map(&mut self, m: &[(DNode, DNode)], ind: usize, mut inline: bool) {
        let mut first = true;
        for (k, v) in m {
            if !inline {
                self.entry_start(ind);
            }
            inline = false;
            // Properties in front of the first implicit key belong to the map.
            let simple =
                Self::is_inline(k) && !matches!(k.body, Body::Empty) && !(first && k.has_props());
            first = false;
            let mut after = ':';
            if simple && !(self.st.vary && self.src.chance(1, 24)) {
                self.flow(k, ind, false);
                if matches!(k.body, Body::Alias(..)) || self.st.vary && self.src.chance(1, 12) {
                    self.gapsp();
                }
                self.out.push(':');
            } else {
                self.out.push('?');
                self.content(k, ind, '?');
                self.noise();
                self.hold = None;
                self.sp(ind);
                self.out.push(':');
                after = ';';
            }
            self.content(v, ind, after);
        }
    }

    pub fn seq(&mut self, v: &[DNode], ind: usize, mut inline: bool) {
        for n in v {
            if !inline {
                self.entry_start(ind);
            }
            inline = false;
            self.out.push('-');
            self.content(n, ind, '-');
        }
    }

    /// A document's root node, starting at the beginning of a line or behind
    /// `---` when `marker` is set.
    pub fn root(&mut self, n: &DNode, marker: bool) {
        if marker {
            self.out.push_str("---");
        }
        match &n.body {
            Body::Map(_) | Body::Seq(_) => {
                // Only the first document of a stream has no marker.
                let a = if marker { self.out.len() } else { 0 };
                if n.has_props() {
                    if marker {
                        self.gapsp();
                    }
                    self.props(n);
                    self.eol();
                } else if marker {
                    self.eol();
                }
                self.hold = None;
                self.noise();
                let ind = if self.st.vary && self.src.chance(1, 8) { self.src.range(1, 4) } else { 0 };
                self.sp(ind);
                n.pos.set(Pos::Within(a, self.out.len()));
                match &n.body {
                    Body::Map(m) => self.map(m, ind, true),
                    Body::Seq(v) => self.seq(v, ind, true),
                    _ => unreachable!(),
                }
            }
            Body::Block { .. } => {
                if !n.has_props() && self.st.vary && self.src.chance(1, 4) {
                    // The header on a line of its own.
                    if marker {
                        self.eol();
                    }
                    self.hold = None;
                    self.noise();
                    let k = self.src.range(0, 3);
                    self.sp(k);
                } else {
                    self.gapsp();
                    self.props(n);
                    if n.has_props() {
                        self.gapsp();
                    }
                }
                self.block_scalar(n, 0, 2);
            }
            Body::Multi(q, _) => {
                if marker {
                    self.gapsp();
                }
                self.props(n);
                if n.has_props() {
                    self.gapsp();
                }
                self.multi(n, usize::from(*q != 0));
            }
            _ => {
                if marker {
                    self.gapsp();
                }
                self.flow(n, 0, true);
                self.eol();
            }
        }
    }
}

pub fn default_tag(v: &Val) -> &'static str {
    match v {
        Val::Null => "tag:yaml.org,2002:null",
        Val::Bool(_) => "tag:yaml.org,2002:bool",
        Val::Int(_) | Val::Big(_) => "tag:yaml.org,2002:int",
        Val::Float(_) => "tag:yaml.org,2002:float",
        Val::Str(_) => "tag:yaml.org,2002:str",
        Val::Seq(_) => "tag:yaml.org,2002:seq",
        Val::Map(_) => "tag:yaml.org,2002:map",
        Val::Alias(_) => "",
    }
}

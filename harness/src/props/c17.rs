//! The sub-parsers against a model of the cursor.
use super::common::*;
use crate::{doc::*, engine::*, model::*};
use std::collections::BTreeMap;
use yaml_peg::{
    parser::{Loader, PError, PResult, Parser, TakeOpt},
    repr::{RcRepr, Repr},
    Node,
};

#[derive(Clone, Debug)]
enum Cond {
    In(Vec<u8>),
    Not(Vec<u8>),
    Digit,
    High,
}

impl Cond {
    fn holds(&self, c: u8) -> bool {
        match self {
            Cond::In(s) => s.contains(&c),
            Cond::Not(s) => !s.contains(&c),
            Cond::Digit => c.is_ascii_digit(),
            Cond::High => c >= 0x80,
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Rep {
    One,
    Range(usize, usize),
    More(usize),
}

impl Rep {
    fn opt(self) -> TakeOpt {
        match self {
            Rep::One => TakeOpt::One,
            Rep::Range(a, b) => TakeOpt::Range(a, b),
            Rep::More(a) => TakeOpt::More(a),
        }
    }
    fn bounds(self) -> (usize, usize) {
        match self {
            Rep::One => (1, 1),
            Rep::Range(a, b) => (a, b),
            Rep::More(a) => (a, usize::MAX),
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Sym(u8),
    Set(Vec<u8>),
    Seq(Vec<u8>),
    Take(Cond, Rep),
    Ws(Rep),
    Inv(Rep),
    Nl,
    Bound,
    Complex,
    Ident,
    Comment,
    Gap(bool),
    FlowGap,
    Chomp,
    Ind(usize),
    IndMore(usize),
    IndDefine(usize),
    Forward,
    Backward,
    Back(usize),
    Consume,
    // From here on the checkpoint is moved to the cursor first.
    Anchor,
    AnchorUse,
    Tag,
    Int,
    Float,
    Sci,
    Quoted(u8),
    Plain(usize, bool),
    Literal(usize),
    Folded(usize),
    Directive,
    // Steps and whether a mismatch of the step ends the body.
    Context(Vec<(Op, bool)>),
    Count(Vec<(Op, bool)>),
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Unit,
    Num(usize),
    Text(String),
    /// Accepted, but the model says nothing about the value.
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    Mismatch,
    Terminate,
}

type Res = Result<Out, Fail>;

/// What the user sees after a step.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    step: String,
    res: Res,
    at: usize,
    eaten: usize,
    text: String,
}

const SAMPLES: [&str; 5] = ["a\nb\n", "a\n\n\n", "a", "\n\n", ""];

// ------------------------------------------------------------ the real parser

fn plain<T>(r: PResult<T>, f: impl FnOnce(T) -> Out) -> Res {
    match r {
        Ok(t) => Ok(f(t)),
        Err(PError::Mismatch) => Err(Fail::Mismatch),
        Err(PError::Terminate { .. }) => Err(Fail::Terminate),
    }
}

fn body(p: &mut Parser, ops: &[(Op, bool)], log: &mut Vec<Seen>) -> PResult<()> {
    for (op, must) in ops {
        match real(p, op, log) {
            Ok(_) => {}
            Err(Fail::Mismatch) if *must => return Err(PError::Mismatch),
            Err(Fail::Mismatch) => {}
            Err(Fail::Terminate) => return Err(PError::Terminate { name: "", msg: String::new() }),
        }
    }
    Ok(())
}

fn real(p: &mut Parser, op: &Op, log: &mut Vec<Seen>) -> Res {
    let unit = |()| Out::Unit;
    let res = match op {
        Op::Sym(c) => plain(p.sym(*c), unit),
        Op::Set(s) => plain(p.sym_set(s), unit),
        Op::Seq(s) => plain(p.sym_seq(s), unit),
        Op::Take(c, r) => plain(
            match c {
                Cond::In(s) => p.take_while(Parser::is_in(s), r.opt()),
                Cond::Not(s) => p.take_while(Parser::not_in(s), r.opt()),
                c => p.take_while(|b| c.holds(*b), r.opt()),
            },
            unit,
        ),
        Op::Ws(r) => plain(p.ws(r.opt()), unit),
        Op::Inv(r) => plain(p.inv(r.opt()), unit),
        Op::Nl => plain(p.nl(), unit),
        Op::Bound => plain(p.bound(), unit),
        Op::Complex => plain(p.complex_mapping(), unit),
        Op::Ident => plain(p.identifier(), unit),
        Op::Comment => plain(p.comment(), unit),
        Op::Gap(c) => plain(p.gap(*c), Out::Num),
        Op::FlowGap => {
            p.flow_gap();
            Ok(Out::Unit)
        }
        Op::Chomp => {
            let f = p.chomp();
            Ok(Out::Text(SAMPLES.map(|s| format!("{:?}", f(s.to_string()))).concat()))
        }
        Op::Ind(l) => plain(p.ind(*l), unit),
        Op::IndMore(l) => plain(p.ind_more(*l), unit),
        Op::IndDefine(l) => plain(p.ind_define(*l), unit),
        Op::Forward => {
            p.forward();
            Ok(Out::Unit)
        }
        Op::Backward => {
            p.backward();
            Ok(Out::Unit)
        }
        Op::Back(n) => {
            p.back((*n).min(p.pos));
            Ok(Out::Unit)
        }
        Op::Consume => {
            p.consume();
            Ok(Out::Unit)
        }
        Op::Context(b) => plain(p.context(|p| body(p, b, log)), unit),
        Op::Count(b) => plain(p.count(|p| body(p, b, log)), Out::Num),
        op => {
            p.forward();
            match op {
                Op::Anchor => plain(p.anchor(), Out::Text),
                Op::AnchorUse => plain(p.anchor_use(), Out::Text),
                Op::Tag => plain(p.tag(), Out::Text),
                Op::Int => plain(p.int(), Out::Text),
                Op::Float => plain(p.float(), Out::Text),
                Op::Sci => plain(p.sci_float(), Out::Text),
                Op::Quoted(b'\'') => plain(p.string_quoted(b'\'', b"''"), Out::Text),
                Op::Quoted(_) => plain(p.string_quoted(b'"', b"\\\""), Out::Text),
                Op::Plain(l, f) => plain(p.string_plain(*l, *f), Out::Text),
                Op::Literal(l) => plain(p.string_literal(*l), Out::Text),
                Op::Folded(l) => plain(p.string_folded(*l), Out::Text),
                Op::Directive => plain(p.directive(), unit),
                _ => unreachable!(),
            }
        }
    };
    let base = p.indicator() as usize - p.pos;
    log.push(Seen {
        step: format!("{op:?}"),
        res: res.clone(),
        at: p.indicator() as usize,
        eaten: base + p.eaten,
        text: p.text(),
    });
    res
}

// ------------------------------------------------------------ the model

struct Model<'a> {
    doc: &'a [u8],
    /// The text before is consumed.
    base: usize,
    at: usize,
    eaten: usize,
    /// Unknown behind rules of several lines.
    indent: Option<Vec<usize>>,
    handles: BTreeMap<String, String>,
    version: bool,
    /// What the real parser did, for the steps the model says little about.
    seen: std::slice::Iter<'a, Seen>,
    problem: Option<String>,
}

fn blank(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | 0x0C)
}
fn name_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'-' || c == b'_'
}

impl<'a> Model<'a> {
    fn byte(&self, i: usize) -> Option<u8> {
        self.doc.get(i).copied()
    }
    fn span(&self, from: usize, f: impl Fn(u8) -> bool) -> usize {
        self.doc[from..].iter().take_while(|c| f(**c)).count()
    }
    fn str(&self, a: usize, b: usize) -> String {
        String::from_utf8_lossy(&self.doc[a..b]).into()
    }
    fn brk(&self, i: usize) -> Option<usize> {
        match self.doc[i..] {
            [b'\r', b'\n', ..] | [b'\n', b'\r', ..] => Some(i + 2),
            [b'\r' | b'\n', ..] => Some(i + 1),
            _ => None,
        }
    }
    fn eol(&self, i: usize) -> usize {
        i + self.span(i, |c| c != b'\n' && c != b'\r')
    }
    fn ident(&self, i: usize) -> Option<usize> {
        let n = self.span(i, name_char);
        (n > 0 && self.doc[i] != b'-').then_some(i + n)
    }
    /// The end of a boundary.
    fn bound(&self, i: usize) -> Option<usize> {
        match self.byte(i) {
            None => Some(i),
            Some(c) if b":{}[] ,\n\r\t".contains(&c) => Some(i + self.span(i, blank)),
            _ => None,
        }
    }
    /// Behind an indicator is the end, a blank or a line break.
    fn sep(&self, i: usize) -> Option<usize> {
        match self.byte(i) {
            Some(c) if !b" \t\n\r".contains(&c) => None,
            _ => Some(i + self.span(i, blank)),
        }
    }
    /// The end of the lines that hold nothing (or only a comment), and the
    /// number of line breaks.
    fn gap(&self, i: usize, cmt: bool) -> Option<(usize, usize)> {
        let rest = |i: usize| {
            let j = i + self.span(i, blank);
            if cmt && self.byte(j) == Some(b'#') {
                self.eol(j)
            } else {
                j
            }
        };
        let j = rest(i);
        if j == self.doc.len() && j > i {
            return Some((j, 1));
        }
        let mut line = self.brk(j)?;
        let mut n = 1;
        loop {
            let j = rest(line);
            match self.brk(j) {
                Some(next) => {
                    line = next;
                    n += 1;
                }
                None if cmt && j == self.doc.len() => return Some((j, n)),
                None => return Some((line, n)),
            }
        }
    }
    fn mark(&self, i: usize) -> bool {
        let start = i == self.base || matches!(self.doc[i - 1], b'\n' | b'\r');
        let m = self.doc[i..].starts_with(b"---") || self.doc[i..].starts_with(b"...");
        start && m && self.byte(i + 3).is_none_or(|c| blank(c) || c == b'\n' || c == b'\r')
    }
    fn take(&mut self, n: usize, (min, max): (usize, usize)) -> Res {
        if n >= min {
            self.at += n.min(max);
            Ok(Out::Unit)
        } else {
            self.at = self.eaten;
            Err(Fail::Mismatch)
        }
    }
    /// Moves to the end, or back to the checkpoint.
    fn end(&mut self, e: Option<usize>) -> Res {
        self.at = e.unwrap_or(self.eaten);
        e.map(|_| Out::Unit).ok_or(Fail::Mismatch)
    }
    fn ind(&mut self, level: usize) -> Res {
        let Some(indent) = &mut self.indent else {
            return self.follow().0;
        };
        indent.resize(level + 1, 2);
        let n: usize = indent.iter().sum();
        let found = self.span(self.at, |c| c == b' ');
        self.end((found >= n).then_some(self.at + n))
    }
    fn named(&mut self, sym: u8) -> Res {
        let e = (self.byte(self.at) == Some(sym)).then(|| self.ident(self.at + 1)).flatten();
        let s = self.at + 1;
        self.end(e).map(|_| Out::Text(self.str(s, self.at)))
    }
    fn num(&self, i: usize) -> Option<usize> {
        let i = i + usize::from(self.byte(i) == Some(b'-'));
        let n = self.span(i, |c| c.is_ascii_digit());
        (n > 0).then_some(i + n)
    }
    /// The end of the text of a number.
    fn number(&self, op: &Op) -> Option<usize> {
        let i = self.num(self.at)?;
        match op {
            Op::Int => {
                if &self.doc[self.at..i] == b"0" {
                    let (radix, skip) = match self.byte(i) {
                        Some(b'o') => (8, 1),
                        Some(b'x') => (16, 1),
                        _ => return Some(i),
                    };
                    let n = self.span(i + 1, |c| (c as char).is_digit(radix));
                    if n > 0 {
                        return Some(i + skip + n);
                    }
                }
                Some(i)
            }
            Op::Float => {
                if self.byte(i) != Some(b'.') {
                    return None;
                }
                Some(i + 1 + self.span(i + 1, |c| c.is_ascii_digit()))
            }
            _ => {
                let i = i + usize::from(self.byte(i) == Some(b'.'));
                let i = i + self.span(i, |c| c.is_ascii_digit());
                if !matches!(self.byte(i), Some(b'e' | b'E')) {
                    return None;
                }
                let i = i + 1 + usize::from(matches!(self.byte(i + 1), Some(b'+' | b'-')));
                let n = self.span(i, |c| c.is_ascii_digit());
                (n > 0).then_some(i + n)
            }
        }
    }
    /// Believe the real parser about what is accepted, but check its manners.
    fn follow(&mut self) -> (Res, String, usize) {
        let s = self.seen.as_slice()[0].clone();
        let start = self.at;
        if s.res == Err(Fail::Mismatch) {
            self.at = self.eaten;
        } else if (start..=self.doc.len()).contains(&s.at) {
            self.at = s.at;
        }
        let text = match &s.res {
            Ok(Out::Text(t)) => t.clone(),
            _ => String::new(),
        };
        (s.res, text, start)
    }
    /// The end of a plain string that starts with a word and ends in its line.
    fn plain_line(&self, start: usize, flow: bool) -> Option<usize> {
        self.byte(start).filter(|c| c.is_ascii_alphanumeric())?;
        let mut i = start;
        let mut end = start;
        loop {
            let next = self.byte(i + 1);
            match self.byte(i) {
                None => break,
                // The next line may continue it.
                Some(b'\n' | b'\r' | 0x0B | 0x0C) => return None,
                Some(b':') if next.is_none_or(|c| b" \t\n\r".contains(&c) || flow && b",[]{}".contains(&c)) => break,
                Some(b'#') if i > end => break,
                Some(c) if flow && b",[]{}".contains(&c) => break,
                Some(b' ' | b'\t') => i += 1,
                Some(_) => {
                    i += 1;
                    end = i;
                }
            }
        }
        Some(end)
    }
    fn quoted(&mut self, q: u8) -> Res {
        if self.byte(self.at) != Some(q) {
            return Err(Fail::Mismatch);
        }
        let mut v = vec![];
        let mut i = self.at + 1;
        loop {
            match (self.byte(i), self.byte(i + 1)) {
                (None, _) => return Err(Fail::Terminate),
                (Some(b'\n' | b'\r'), _) => {
                    // Several lines are up to C04.
                    return self.follow().0;
                }
                (Some(b'\''), Some(b'\'')) if q == b'\'' => {
                    v.push(b'\'');
                    i += 2;
                }
                (Some(b'\\'), Some(b'"')) if q == b'"' => {
                    v.push(b'"');
                    i += 2;
                }
                (Some(b'\\'), Some(b'\\')) if q == b'"' => {
                    v.extend(b"\\\\");
                    i += 2;
                }
                (Some(c), _) if c == q => break,
                (Some(c), _) => {
                    v.push(c);
                    i += 1;
                }
            }
        }
        self.at = i + 1;
        Ok(Out::Text(String::from_utf8_lossy(&v).into()))
    }
    fn tag(&mut self) -> Res {
        let s = self.at;
        if self.byte(s) != Some(b'!') {
            return Err(Fail::Mismatch);
        }
        let prefix;
        let mut i = s + 1;
        match self.ident(i) {
            Some(e) if self.byte(e) == Some(b'!') => {
                match self.handles.get(&self.str(i, e)) {
                    Some(p) => prefix = p.clone(),
                    None => return Err(Fail::Terminate),
                }
                i = e + 1;
            }
            Some(_) => prefix = self.handles["!"].clone(),
            None if self.byte(i) == Some(b'<') => {
                let n = self.span(i + 1, |c| !b" <>\n\r".contains(&c));
                if n == 0 || self.byte(i + 1 + n) != Some(b'>') {
                    return Err(Fail::Mismatch);
                }
                if self.ident(i + n + 2).is_some() {
                    return self.follow().0;
                }
                prefix = self.str(i + 1, i + 1 + n);
                i += n + 2;
            }
            None if self.byte(i) == Some(b'!') => {
                prefix = self.handles["!!"].clone();
                i += 1;
            }
            None => prefix = self.handles["!"].clone(),
        }
        self.at = self.ident(i).unwrap_or(i);
        Ok(Out::Text(prefix + &self.str(i, self.at)))
    }
    fn directive(&mut self) -> Res {
        let s = self.at;
        if self.byte(s) != Some(b'%') {
            return Err(Fail::Mismatch);
        }
        let r = &self.doc[s + 1..];
        let mut i;
        // The name of a directive is a whole word.
        let name = |n: &[u8]| r.strip_prefix(n).is_some_and(|r| r.first().is_none_or(|c| b" \t\n\r".contains(c)));
        if name(b"YAML") {
            i = s + 5;
            let n = self.span(i, blank);
            i += n;
            let known = self.doc[i..].starts_with(b"1.1") || self.doc[i..].starts_with(b"1.2");
            if n == 0 || self.version || !known {
                return Err(Fail::Terminate);
            }
            self.version = true;
            i += 3;
        } else if name(b"TAG") {
            i = s + 4;
            let n = self.span(i, blank);
            i += n;
            if n == 0 || self.byte(i) != Some(b'!') {
                return Err(Fail::Terminate);
            }
            i += 1;
            let handle;
            if let Some(e) = self.ident(i) {
                handle = self.str(i, e);
                if self.byte(e) != Some(b'!') {
                    return Err(Fail::Terminate);
                }
                i = e + 1;
            } else if self.byte(i) == Some(b'!') {
                handle = "!!".into();
                i += 1;
            } else {
                handle = "!".into();
            }
            let n = self.span(i, blank);
            i += n;
            let e = i + self.span(i, |c| !b" \t\n\r".contains(&c));
            if n == 0 || e == i {
                return Err(Fail::Terminate);
            }
            self.handles.insert(handle, self.str(i, e));
            i = e;
        } else {
            i = self.eol(s + 1);
        }
        match self.gap(i, true) {
            Some((e, _)) => {
                self.at = e;
                Ok(Out::Unit)
            }
            None => Err(Fail::Terminate),
        }
    }
    fn body(&mut self, ops: &[(Op, bool)]) -> Res {
        for (op, must) in ops {
            match self.run(op) {
                Err(Fail::Mismatch) if !*must => {}
                Err(e) => return Err(e),
                Ok(_) => {}
            }
            if self.problem.is_some() {
                break;
            }
        }
        Ok(Out::Unit)
    }
    fn step(&mut self, op: &Op) -> Res {
        if matches!(op, Op::Anchor | Op::AnchorUse | Op::Tag | Op::Int | Op::Float | Op::Sci | Op::Quoted(_) | Op::Plain(..) | Op::Literal(_) | Op::Folded(_) | Op::Directive) {
            self.eaten = self.at;
        }
        let at = self.at;
        match op {
            Op::Sym(c) => self.take(usize::from(self.byte(at) == Some(*c)), (1, 1)),
            Op::Set(s) => self.take(usize::from(self.byte(at).is_some_and(|c| s.contains(&c))), (1, 1)),
            Op::Seq(s) => {
                let ok = self.doc[at..].starts_with(s);
                self.end(ok.then_some(at + s.len()))
            }
            Op::Take(c, r) => self.take(self.span(at, |b| c.holds(b)), r.bounds()),
            Op::Ws(r) => self.take(self.span(at, blank), r.bounds()),
            Op::Inv(r) => self.take(self.span(at, |c| blank(c) || c == b'\n' || c == b'\r'), r.bounds()),
            Op::Nl => match self.brk(at) {
                Some(e) => self.end(Some(e)),
                None => Err(Fail::Mismatch),
            },
            Op::Bound => self.end(self.bound(at)),
            Op::Complex => self.end((self.byte(at) == Some(b'?')).then(|| self.sep(at + 1)).flatten()),
            Op::Ident => self.end(self.ident(at)),
            Op::Comment => {
                let i = at + self.span(at, blank);
                self.end((self.byte(i) == Some(b'#')).then(|| self.eol(i)))
            }
            Op::Gap(c) => match self.gap(at, *c) {
                Some((e, n)) => {
                    self.at = e;
                    Ok(Out::Num(n))
                }
                None => Err(Fail::Mismatch),
            },
            Op::FlowGap => {
                loop {
                    self.at += self.span(self.at, |c| blank(c) || c == b'\n' || c == b'\r');
                    let sep = self.at == self.base || blank(self.doc[self.at - 1]) || matches!(self.doc[self.at - 1], b'\n' | b'\r');
                    if !sep || self.byte(self.at) != Some(b'#') {
                        break;
                    }
                    self.at = self.eol(self.at);
                }
                self.eaten = self.at;
                Ok(Out::Unit)
            }
            Op::Chomp => {
                let c = self.byte(at).filter(|c| b"+-".contains(c));
                self.at += usize::from(c.is_some());
                let f = |s: &str| {
                    let t = s.trim_end_matches('\n');
                    match c {
                        Some(b'-') => t.to_string(),
                        Some(_) => s.to_string(),
                        None if t.is_empty() => String::new(),
                        None => format!("{t}\n"),
                    }
                };
                Ok(Out::Text(SAMPLES.map(|s| if s == "a" && c.is_none() { "?".into() } else { format!("{:?}", f(s)) }).concat()))
            }
            Op::Ind(l) => self.ind(*l),
            Op::IndMore(l) => {
                if *l == 0 {
                    if self.mark(at) {
                        return Err(Fail::Mismatch);
                    }
                    return self.take(self.span(at, blank), (0, usize::MAX));
                }
                if self.indent.is_none() {
                    return self.follow().0;
                }
                self.ind(l - 1)?;
                if self.byte(self.at) != Some(b' ') {
                    return self.end(None);
                }
                self.end(Some(self.at + self.span(self.at, blank)))
            }
            Op::IndDefine(l) => {
                if *l > 0 {
                    if self.indent.is_none() {
                        return self.follow().0;
                    }
                    self.ind(l - 1)?;
                }
                let n = self.span(self.at, |c| blank(c) || c == b'\n' || c == b'\r');
                self.at += n;
                let indent = self.indent.get_or_insert_default();
                indent.resize(*l, 2);
                indent.push(n);
                Ok(Out::Unit)
            }
            Op::Forward => {
                self.eaten = at;
                Ok(Out::Unit)
            }
            Op::Backward => {
                self.at = self.eaten;
                Ok(Out::Unit)
            }
            Op::Back(n) => {
                self.at -= (*n).min(at - self.base);
                Ok(Out::Unit)
            }
            Op::Consume => {
                self.base = at;
                self.eaten = at;
                Ok(Out::Unit)
            }
            Op::Context(b) => {
                let eaten = self.eaten;
                self.eaten = at;
                let r = self.body(b);
                self.eaten = eaten;
                r
            }
            Op::Count(b) => self.body(b).map(|_| Out::Num(self.at.wrapping_sub(at))),
            Op::Anchor => self.named(b'&'),
            Op::AnchorUse => self.named(b'*'),
            Op::Tag => self.tag(),
            Op::Int | Op::Float | Op::Sci => {
                let e = self.number(op);
                let blanks = e.map_or(0, |e| self.span(e, blank));
                let r = if let (Some(e), true) = (e, blanks > 0) {
                    // With blanks behind, a number need not be one of its own.
                    match self.follow().0 {
                        Ok(_) => self.end(Some(e + blanks)),
                        r if self.bound(e + blanks).is_none() || self.doc[e..e + blanks].contains(&0x0C) => r,
                        _ => self.end(Some(e + blanks)),
                    }
                } else {
                    self.end(e.and_then(|e| self.bound(e)))
                };
                r?;
                let s = self.str(at, e.unwrap_or(at));
                // Trailing zeros of the fraction are not significant.
                Ok(Out::Text(if matches!(op, Op::Float) { s.trim_end_matches(".0").to_string() } else { s }))
            }
            Op::Quoted(q) => self.quoted(*q),
            Op::Plain(_, flow) => {
                self.indent = None;
                let line = self.plain_line(at, *flow);
                let (r, text, start) = self.follow();
                if let Some(e) = line {
                    let want = self.str(at, e);
                    let end = e + self.span(e, |c| c == b' ' || c == b'\t');
                    if r.is_err() || text != want || !(e..=end).contains(&self.at) {
                        self.problem = Some(format!("the plain string {want:?} was read as {text:?} up to {}", self.at));
                    }
                }
                if r.is_ok() {
                    let eaten = self.str(start, self.at);
                    let norm = |s: &str| s.split_ascii_whitespace().map(String::from).collect::<Vec<_>>().join(" ");
                    if text.trim_matches(|c: char| c.is_ascii_whitespace()) != text || text.is_empty() || (!eaten.contains('#') && norm(&eaten) != norm(&text)) {
                        self.problem = Some(format!("the plain string {text:?} was read from {eaten:?}"));
                    }
                }
                r
            }
            Op::Literal(_) | Op::Folded(_) => {
                self.indent = None;
                let c = if matches!(op, Op::Literal(_)) { b'|' } else { b'>' };
                let (r, text, start) = self.follow();
                if self.byte(start) != Some(c) {
                    return Err(Fail::Mismatch);
                }
                if r.is_ok() {
                    let eaten = self.str(start, self.at);
                    let head = eaten.find(['\n', '\r']).unwrap_or(eaten.len());
                    let words = |s: &str| s.split_ascii_whitespace().map(String::from).collect::<Vec<_>>();
                    if words(&eaten[head..]) != words(&text) {
                        self.problem = Some(format!("the wrapped string {text:?} was read from {eaten:?}"));
                    }
                }
                r
            }
            Op::Directive => self.directive(),
        }
    }
    /// A step, compared with what the real parser did.
    fn run(&mut self, op: &Op) -> Res {
        let want = self.step(op);
        if self.problem.is_some() {
            return want;
        }
        let Some(got) = self.seen.next() else {
            self.problem = Some(format!("{op:?} was not reached"));
            return want;
        };
        if got.step != format!("{op:?}") {
            self.problem = Some(format!("{op:?} is next, but {} was done", got.step));
            return want;
        }
        let same = match (&want, &got.res) {
            (Ok(Out::Any), Ok(_)) => true,
            (Ok(Out::Text(a)), Ok(Out::Text(b))) if matches!(op, Op::Chomp) && a.contains('?') => {
                let i = a.find('?').unwrap_or(0);
                b.starts_with(&a[..i]) && b.ends_with(&a[i + 1..])
            }
            (a, b) => a == b,
        };
        // How far a parser came that gives up is its own business.
        let given_up = want == Err(Fail::Terminate);
        let text = if self.eaten < self.at { self.str(self.eaten, self.at) } else { String::new() };
        if !same || (!given_up && (got.at != self.at || got.eaten != self.eaten || got.text != text)) {
            self.problem = Some(format!(
                "{op:?} gave {:?} at {} (checkpoint {}, text {:?}), expected {want:?} at {} (checkpoint {}, text {text:?})",
                got.res, got.at, got.eaten, got.text, self.at, self.eaten
            ));
        }
        want
    }
}

// ------------------------------------------------------------ generation

const BITS: &[&str] = &[
    "a", " ", "\n", "  ", "b1", "#", "# c", ":", ": ", "-", "- ", "?", "? ", ",", "[", "]", "{", "}", "\r\n", "\r", "\t", "&a", "*a", "!", "!!", "!t", "!x!t", "!<u>", "!<",
    "'", "''", "'a'", "\"", "\"b\"", "\\", "\\\"", "\\\\", "|", ">", "|-", ">+", "|\n  x\n", "0", "12", "-3", "1.5", "0x1F", "0o7", "1e5", ".", "e", "+", "---", "...",
    "---\n", "%", "%YAML 1.2", "%TAG !x! u\n", "%TAG ! v", "é", "漢", "\u{1F600}", "\u{c}", "    ", "x-y", "--", "\n\n", "\n  ", "\n    ",
    "_", "a_b", "&a_", "@", "`", "=", "$", "/", "~", "^", ";", "(", "<", "é1", "Z", "9", "\0", "\u{b}", "\x7f", "\u{85}", "\u{a0}", "\u{feff}", "\n\r",
];

fn text(src: &mut Src) -> Vec<u8> {
    let n = if src.chance(3, 4) { src.range(3, 16) } else { src.usize(4) };
    let mut v: Vec<u8> = vec![];
    for _ in 0..n {
        let b = *src.pick(BITS);
        let k = src.big(1, 150);
        v.extend(b.repeat(k).bytes());
    }
    if src.chance(1, 12) {
        let i = src.usize(v.len() + 1);
        v.insert(i, *src.pick(&[0xFF, 0xC3, 0x80, 0]));
    }
    v
}

fn bytes(src: &mut Src, doc: &[u8], max: usize) -> Vec<u8> {
    // Likely a part of the document.
    if !doc.is_empty() && src.chance(3, 4) {
        let i = src.usize(doc.len());
        let n = src.range(1, max);
        return doc[i..].iter().take(n).copied().collect();
    }
    let n = src.range(1, max);
    (0..n).map(|_| *src.pick(b" a:-\n#,\r0[")).collect()
}

fn rep(src: &mut Src) -> Rep {
    match src.below(3) {
        0 => {
            let a = src.usize(4);
            Rep::More(src.big(a, 60))
        }
        1 => Rep::One,
        _ => {
            let a = src.usize(4);
            let a = src.big(a, 60);
            let d = src.usize(3);
            Rep::Range(a, a + src.big(d, 60))
        }
    }
}

fn op(src: &mut Src, doc: &[u8], depth: usize, inner: bool) -> Op {
    let level = src.usize(4);
    match src.weighted(&[6, 3, 3, 5, 2, 1, 2, 2, 1, 2, 1, 3, 2, 1, 2, 2, 2, 3, 2, 1, 2, 1, 1, 2, 2, 1, 1, 2, 2, 1, 1, 1, 3, 2]) {
        0 => Op::Sym(bytes(src, doc, 1)[0]),
        1 => Op::Set(bytes(src, doc, 4)),
        2 => Op::Seq(bytes(src, doc, 3)),
        3 => {
            let c = match src.below(4) {
                0 => Cond::In(bytes(src, doc, 4)),
                1 => Cond::Not(bytes(src, doc, 3)),
                2 => Cond::Digit,
                _ => Cond::High,
            };
            Op::Take(c, rep(src))
        }
        4 => Op::Ws(rep(src)),
        5 => Op::Inv(rep(src)),
        6 => Op::Nl,
        7 => Op::Bound,
        8 => Op::Complex,
        9 => Op::Ident,
        10 => Op::Comment,
        11 => Op::Gap(src.chance(2, 3)),
        12 => Op::FlowGap,
        13 => Op::Chomp,
        14 => Op::Ind(level),
        15 => Op::IndMore(level),
        16 => Op::IndDefine(level),
        17 => Op::Forward,
        18 if !inner => Op::Backward,
        19 if !inner => Op::Back(src.range(1, 4)),
        20 if !inner => Op::Consume,
        21 => Op::Anchor,
        22 => Op::AnchorUse,
        23 => Op::Tag,
        24 => Op::Int,
        25 => Op::Float,
        26 => Op::Sci,
        27 => Op::Quoted(*src.pick(b"'\"")),
        28 => Op::Plain(level, src.chance(1, 2)),
        29 => Op::Literal(level),
        30 => Op::Folded(level),
        31 => Op::Directive,
        k @ (32 | 33) if depth > 0 => {
            let n = src.range(1, 4);
            let b: Vec<(Op, bool)> = (0..n)
                .map(|_| {
                    // What counts must not go back behind its start.
                    let must = k == 33 || src.chance(1, 2);
                    (op(src, doc, depth - 1, true), must)
                })
                .collect();
            if k == 33 {
                Op::Count(b)
            } else {
                Op::Context(b)
            }
        }
        _ => Op::Nl,
    }
}

/// An operation that suits the text at the cursor.
fn fitting(src: &mut Src, rest: &[u8]) -> Option<Op> {
    let c = *rest.first()?;
    Some(match c {
        b'&' => Op::Anchor,
        b'*' => Op::AnchorUse,
        b'!' => Op::Tag,
        b'%' => Op::Directive,
        b'\'' | b'"' => Op::Quoted(c),
        b'|' => Op::Literal(src.usize(3)),
        b'>' => Op::Folded(src.usize(3)),
        b'?' => Op::Complex,
        b'#' => Op::Comment,
        b'\n' | b'\r' => match src.below(4) {
            0 => Op::Gap(true),
            1 => Op::Nl,
            2 => Op::Gap(false),
            _ => Op::FlowGap,
        },
        b' ' => match src.below(5) {
            0 => Op::Ws(Rep::More(1)),
            1 => Op::Ind(src.usize(3)),
            2 => Op::IndMore(src.usize(3)),
            3 => Op::IndDefine(src.usize(3)),
            _ => Op::FlowGap,
        },
        b'0'..=b'9' | b'-' => match src.below(4) {
            0 => Op::Int,
            1 => Op::Float,
            2 => Op::Sci,
            _ => Op::Plain(src.usize(2), src.chance(1, 2)),
        },
        _ => match src.below(4) {
            0 => Op::Plain(src.usize(2), src.chance(1, 2)),
            1 => Op::Ident,
            2 => {
                let n = src.range(1, 3);
                Op::Seq(rest.iter().take(n).copied().collect())
            }
            _ => Op::Bound,
        },
    })
}

fn history(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let doc = text(src);
    let start = if src.chance(1, 4) { src.usize(doc.len() + 1) } else { 0 };
    let n = src.range(1, 12);
    let mut p = if src.chance(1, 3) { Parser::default().with_doc(&doc) } else { Parser::new(&doc) };
    if start > 0 {
        p = p.pos(start);
    }
    let mut ops = vec![];
    let mut log = vec![];
    let mut moved = 0;
    for _ in 0..n {
        let op = match fitting(src, p.food()) {
            Some(o) if src.chance(1, 2) => o,
            _ => op(src, &doc, 2, false),
        };
        let at = p.indicator();
        let r = real(&mut p, &op, &mut log);
        moved += usize::from(r.is_ok() && p.indicator() != at);
        ops.push(op);
        let at = p.indicator() as usize;
        if at > doc.len() || p.food() != &doc[at..] || p.food_str() != String::from_utf8_lossy(&doc[at..]) {
            ctx.input(|| format!("{:?} from {start}: {ops:?}", String::from_utf8_lossy(&doc)));
            return Err(format!("the text behind the cursor is {:?} at {at}", p.food_str()));
        }
        if r == Err(Fail::Terminate) {
            ctx.label("given up");
            break;
        }
    }
    announce(ctx, || format!("text {:?} from {start}: {ops:?}", String::from_utf8_lossy(&doc)));
    if moved >= 2 {
        ctx.nontrivial(hash_str(&format!("{doc:?}{start}{ops:?}")));
    }
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Consume)), "consumed");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Context(_) | Op::Count(_))), "nested");
    ctx.label_if(log.iter().any(|s| s.res == Err(Fail::Mismatch)), "mismatch");
    let mut m = Model {
        doc: &doc,
        base: 0,
        at: start,
        eaten: start,
        indent: Some(vec![0]),
        handles: [("!".to_string(), String::new()), ("!!".to_string(), "tag:yaml.org,2002:".to_string())].into(),
        version: false,
        seen: log.iter(),
        problem: None,
    };
    for o in &ops {
        let _ = m.run(o);
        if let Some(p) = m.problem {
            return Err(p);
        }
    }
    Ok(())
}

fn yaml<R: Repr>(rc: R::Rc) -> Node<R> {
    Node::new_repr(rc, 0, "")
}

/// The flow and scalar rules of the loader stop right behind what they accept.
fn partial(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let st = Style { noise: false, nl: line_end(src), vary: src.chance(2, 3) };
    let cfg = Cfg { tags: false, anchors: false, ..Cfg::default() };
    let depth = src.range(1, 3);
    let d = gen(src, cfg).flow_node(depth);
    let kind = match &d.body {
        Body::FlowSeq(_) => 0,
        Body::FlowMap(_) => 1,
        Body::Single(_) => 2,
        Body::Double(..) => 3,
        _ => 4,
    };
    let mut r = Ren::new(src, st);
    r.flow(&d, 0, false);
    let body = r.out;
    let lead = *src.pick(&["", "x", "é ", "\n  "]);
    let tail = *src.pick(&["", "]", "}", ", z", "\n", "\nb: 1", ": y", "\n- z", "\r\n..."]);
    if kind == 4 && (tail.starts_with("\nb") || tail.starts_with("\n-") || tail.starts_with(']') || tail.starts_with('}')) {
        ctx.discarded = true;
        return Ok(());
    }
    let doc = format!("{lead}{body}{tail}");
    announce(ctx, || format!("{doc:?} from {}", lead.len()));
    ctx.nontrivial(hash_str(&doc));
    ctx.label(["sequence", "map", "single-quoted", "double-quoted", "plain"][kind]);
    let mut l = Loader::<RcRepr>::new(doc.as_bytes());
    l.parser.pos = lead.len();
    l.forward();
    let err = |e: PError| format!("rejected: {e}");
    let flow = tail.starts_with(',') || src.chance(1, 2);
    let node = match kind {
        0 if src.chance(1, 2) => yaml(l.seq_flow(0).map_err(err)?),
        1 if src.chance(1, 2) => yaml(l.map_flow(0).map_err(err)?),
        _ if src.chance(1, 2) && matches!(tail, "" | "]" | "}" | ", z" | ": y") => yaml(l.scalar_term(0, flow).map_err(err)?),
        _ => l.scalar_flow(0, flow).map_err(err)?,
    };
    if kind == 4 {
        l.gap(false).unwrap_or_default();
        l.inv(TakeOpt::More(0)).unwrap_or_default();
    }
    diff(&[d.val(false)], &[to_val(&node)?])?;
    let rest = l.food_str().to_string();
    let want = if kind == 4 { tail.trim_start() } else { tail };
    if rest != want {
        return Err(format!("{rest:?} is left, expected {want:?}"));
    }
    // The wrong rule does not touch anything.
    for k in 0..4 {
        let mut l = Loader::<RcRepr>::new(doc.as_bytes());
        l.parser.pos = lead.len();
        l.forward();
        let miss = match k {
            0 => l.seq_flow(0).err(),
            1 => l.map_flow(0).err(),
            2 => l.string_quoted(b'\'', b"''").err(),
            _ => l.string_quoted(b'"', b"\\\"").err(),
        };
        if k == kind {
            continue;
        }
        if !matches!(miss, Some(PError::Mismatch)) || l.pos != lead.len() || l.eaten != lead.len() {
            return Err(format!("rule {k} gave {miss:?} at {} (checkpoint {})", l.pos, l.eaten));
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "a history in which at least two steps move the cursor, distinct by text and steps; or a flow node with its surroundings, distinct by text",
        assumptions: &[
            "what a parser that gives up (terminating error) has eaten is not fixed",
            "which text the plain and wrapped string rules accept is up to C04; here their manners count",
        ],
        targets: vec![
            Target { name: "history", f: history, quick: 1_200_000, thorough: 10_000_000, guided: 30 },
            Target { name: "partial", f: partial, quick: 300_000, thorough: 2_000_000, guided: 0 },
        ],
    }
}

//! Helpers shared by the properties.
use crate::{doc::*, engine::*, model::*};
use yaml_peg::{parser::PError, repr::Repr, Node, Yaml};

pub fn gen<'a>(src: &'a mut Src, cfg: Cfg) -> Gen<'a> {
    Gen { src, cfg, defined: vec![], names: 0, deep: false }
}

/// Visit a rendered tree and the parsed node side by side. The trees must have
/// the same shape (check the values first); aliases are visited, not entered.
pub fn zip<'a, R: Repr>(
    d: &'a DNode,
    n: &'a Node<R>,
    f: &mut dyn FnMut(&'a DNode, &'a Node<R>) -> Result<(), String>,
) -> Result<(), String> {
    f(d, n)?;
    match (&d.body, n.yaml()) {
        (Body::FlowSeq(v) | Body::Seq(v), Yaml::Seq(s)) => {
            if v.len() != s.len() {
                return Err(format!("{} items expected, {} found", v.len(), s.len()));
            }
            for (a, b) in v.iter().zip(s) {
                zip(a, b, f)?;
            }
        }
        (Body::FlowMap(m) | Body::Map(m), Yaml::Map(s)) => {
            if m.len() != s.len() {
                return Err(format!("{} entries expected, {} found", m.len(), s.len()));
            }
            for ((k, v), (a, b)) in m.iter().zip(s) {
                zip(k, a, f)?;
                zip(v, b, f)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// The name and the message of a parser error.
pub fn perr(e: &PError) -> (String, String) {
    match e {
        PError::Mismatch => ("mismatch".into(), String::new()),
        PError::Terminate { name, msg } => (name.to_string(), msg.clone()),
    }
}

/// Parse text and compare with what was rendered; returns the nodes.
pub fn expect_rc(text: &str, exp: &[Val]) -> Result<Vec<yaml_peg::NodeRc>, String> {
    let got = yshim::parse_rc(text).map_err(|e| format!("rejected: {e}\n expected {exp:?}"))?;
    diff(exp, &to_vals(&got)?)?;
    Ok(got)
}

pub fn reject(text: &str, why: &str) -> Result<PError, String> {
    match yshim::parse_rc(text) {
        Ok(v) => Err(format!("{why}: accepted as {:?}", to_vals(&v))),
        Err(e) => Ok(e),
    }
}

/// What ends the lines of a text.
pub fn line_end(src: &mut Src) -> &'static str {
    ["\n", "\r\n", "\r"][src.weighted(&[10, 2, 1])]
}

/// Split a rendered root so that several documents can follow each other.
pub fn style(src: &mut Src) -> Style {
    Style { noise: src.chance(1, 2), nl: line_end(src), vary: src.chance(2, 3) }
}

/// Many: more than the other generators reach, often next to a power of two.
pub fn many(src: &mut Src) -> usize {
    fuel_more(9 * FUEL_PER_CASE);
    match src.weighted(&[6, 6, 1]) {
        0 => src.range(130, 3000),
        1 => {
            let n = 1 << src.range(7, 12);
            n + src.range(0, 2) - 1
        }
        _ => {
            fuel_more(90 * FUEL_PER_CASE);
            // More than 16 bits, now and then.
            if src.chance(1, 4) { 65_530 + src.range(0, 12) } else { src.range(3000, 9000) }
        }
    }
}

/// A sequence or map of many small entries.
pub fn wide_val(src: &mut Src) -> Val {
    let n = many(src);
    let seed = src.u64() | 1;
    let entry = |i: usize| {
        let h = (i as u64 + 1).wrapping_mul(seed).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32;
        match h % 9 {
            0 => Val::Str(format!("v{i}")),
            1 => Val::Null,
            2 => Val::Seq(vec![Val::Int(i as i128), Val::s("x")]),
            3 => Val::Map(vec![(Val::s("a"), Val::Int(i as i128)), (Val::s("b"), Val::Null)]),
            4 => Val::Bool(h & 16 > 0),
            5 => Val::Float(i as f64 + 0.5),
            _ => Val::Int(i as i128),
        }
    };
    match src.below(3) {
        0 => Val::Seq((0..n).map(entry).collect()),
        1 => Val::Map((0..n).map(|i| (Val::Str(format!("k{i}")), entry(i))).collect()),
        _ => Val::Map((0..n).map(|i| (Val::Int((n - i) as i128), entry(i))).collect()),
    }
}

/// The value in the plainest form.
pub fn plain_node(v: &Val, flow: bool) -> DNode {
    DNode::new(match v {
        Val::Null => Body::Plain("~".into()),
        Val::Bool(b) => Body::Plain(b.to_string()),
        Val::Int(i) => Body::Plain(i.to_string()),
        Val::Float(f) => Body::Plain(format!("{f:?}")),
        Val::Seq(v) => {
            let v = v.iter().map(|v| plain_node(v, flow)).collect();
            if flow { Body::FlowSeq(v) } else { Body::Seq(v) }
        }
        Val::Map(m) => {
            let m = m.iter().map(|(k, v)| (plain_node(k, flow), plain_node(v, flow))).collect();
            if flow { Body::FlowMap(m) } else { Body::Map(m) }
        }
        Val::Str(s) => Body::Plain(s.clone()),
        v => unreachable!("{v:?}"),
    })
}

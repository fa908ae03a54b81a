//! Reference model of YAML data and of the resolution of plain scalars. Nothing
//! here calls yaml-peg except to look into its nodes.
use std::hash::Hash;
use yaml_peg::{repr::Repr, Node, Yaml};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i128),
    /// An integer beyond the range of i128: its text.
    Big(String),
    Float(f64),
    Str(String),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Alias(String),
}

impl Val {
    pub fn s(x: &str) -> Val {
        Val::Str(x.into())
    }
    /// Value equality (NaN equals NaN), the documented meaning of node equality.
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Float(a), Val::Float(b)) => a == b || (a.is_nan() && b.is_nan()),
            (Val::Seq(a), Val::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (Val::Map(a), Val::Map(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.same(&y.0) && x.1.same(&y.1))
            }
            (a, b) => a == b,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Val::Null => "null",
            Val::Bool(_) => "bool",
            Val::Int(_) | Val::Big(_) => "int",
            Val::Float(_) => "float",
            Val::Str(_) => "str",
            Val::Seq(_) => "seq",
            Val::Map(_) => "map",
            Val::Alias(_) => "alias",
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Val::Seq(v) => 1 + v.iter().map(Val::depth).max().unwrap_or(0),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Val::Seq(v) => 1 + v.iter().map(Val::size).sum::<usize>(),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

fn all(s: &str, f: impl Fn(char) -> bool) -> bool {
    !s.is_empty() && s.chars().all(f)
}

/// Reference for integer texts: optional '-', decimal digits; 0o octal; 0x hex.
pub fn int_text(s: &str) -> Option<i128> {
    if let Some(h) = s.strip_prefix("0x") {
        return if all(h, |c| c.is_ascii_hexdigit()) { i128::from_str_radix(h, 16).ok() } else { None };
    }
    if let Some(h) = s.strip_prefix("0o") {
        return if all(h, |c| ('0'..='7').contains(&c)) { i128::from_str_radix(h, 8).ok() } else { None };
    }
    let d = s.strip_prefix('-').unwrap_or(s);
    if all(d, |c| c.is_ascii_digit()) {
        s.parse().ok()
    } else {
        None
    }
}

fn is_int_text(s: &str) -> bool {
    if let Some(h) = s.strip_prefix("0x") {
        return all(h, |c| c.is_ascii_hexdigit());
    }
    if let Some(h) = s.strip_prefix("0o") {
        return all(h, |c| ('0'..='7').contains(&c));
    }
    all(s.strip_prefix('-').unwrap_or(s), |c| c.is_ascii_digit())
}

/// Reference for float texts: -?digits '.' digits* , or with an exponent.
pub fn float_text(s: &str) -> Option<f64> {
    match s {
        ".nan" | ".NaN" | ".NAN" => return Some(f64::NAN),
        ".inf" | ".Inf" | ".INF" => return Some(f64::INFINITY),
        "-.inf" | "-.Inf" | "-.INF" => return Some(f64::NEG_INFINITY),
        _ => {}
    }
    let d = s.strip_prefix('-').unwrap_or(s);
    let (m, e) = match d.find(['e', 'E']) {
        Some(i) => (&d[..i], Some(&d[i + 1..])),
        None => (d, None),
    };
    if let Some(e) = e {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        if !all(e, |c| c.is_ascii_digit()) {
            return None;
        }
    }
    let (i, f) = match m.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (m, None),
    };
    if !all(i, |c| c.is_ascii_digit()) {
        return None;
    }
    match (f, e) {
        (None, None) => None,
        (Some(f), _) if !f.is_empty() && !all(f, |c| c.is_ascii_digit()) => None,
        _ => s.parse().ok(),
    }
}

/// The value a plain scalar stands for.
pub fn resolve(s: &str) -> Val {
    match s {
        "~" | "null" | "Null" | "NULL" => return Val::Null,
        "true" | "True" | "TRUE" => return Val::Bool(true),
        "false" | "False" | "FALSE" => return Val::Bool(false),
        _ => {}
    }
    if let Some(i) = int_text(s) {
        Val::Int(i)
    } else if is_int_text(s) {
        Val::Big(s.into())
    } else if let Some(f) = float_text(s) {
        Val::Float(f)
    } else {
        Val::Str(s.into())
    }
}

/// Read a node into the model. Numbers are read with the model's own parsers.
pub fn to_val<R: Repr>(n: &Node<R>) -> Result<Val, String> {
    Ok(match n.yaml() {
        Yaml::Null => Val::Null,
        Yaml::Bool(b) => Val::Bool(*b),
        Yaml::Int(s) => {
            // Digit strings beyond the model's range keep their text.
            match int_text(s).or_else(|| s.parse::<i128>().ok()) {
                Some(i) => Val::Int(i),
                None if is_int_text(s) => Val::Big(s.clone()),
                None => return Err(format!("integer node holds {s:?}")),
            }
        }
        Yaml::Float(s) => match s.as_str() {
            "NaN" => Val::Float(f64::NAN),
            "inf" => Val::Float(f64::INFINITY),
            "-inf" => Val::Float(f64::NEG_INFINITY),
            s => match s.parse() {
                Ok(f) => Val::Float(f),
                Err(_) => return Err(format!("float node holds {s:?}")),
            },
        },
        Yaml::Str(s) => Val::Str(s.clone()),
        Yaml::Seq(v) => Val::Seq(v.iter().map(to_val).collect::<Result<_, _>>()?),
        Yaml::Map(m) => Val::Map(
            m.iter()
                .map(|(k, v)| Ok((to_val(k)?, to_val(v)?)))
                .collect::<Result<_, String>>()?,
        ),
        Yaml::Alias(a) => Val::Alias(a.clone()),
    })
}

pub fn to_vals<R: Repr>(n: &[Node<R>]) -> Result<Vec<Val>, String> {
    n.iter().map(to_val).collect()
}

/// Build a node from the model through the public conversions.
pub fn build_node<R: Repr>(v: &Val) -> Node<R> {
    match v {
        Val::Null => Node::from(()),
        Val::Bool(b) => Node::from(*b),
        Val::Int(i) => Node::from(*i),
        Val::Big(s) => Node::from(Yaml::Int(s.clone())),
        Val::Float(f) => Node::from(*f),
        Val::Str(s) => Node::from(s.as_str()),
        Val::Seq(v) => v.iter().map(build_node).collect(),
        Val::Map(m) => m.iter().map(|(k, v)| (build_node(k), build_node(v))).collect(),
        Val::Alias(a) => Node::from(Yaml::Alias(a.clone())),
    }
}

pub fn diff(exp: &[Val], got: &[Val]) -> Result<(), String> {
    if exp.len() != got.len() {
        return Err(format!("{} documents expected, {} found\n expected {exp:?}\n found    {got:?}", exp.len(), got.len()));
    }
    for (i, (a, b)) in exp.iter().zip(got).enumerate() {
        if !a.same(b) {
            return Err(format!("document {i} differs\n expected {a:?}\n found    {b:?}"));
        }
    }
    Ok(())
}

pub fn std_hash<T: Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

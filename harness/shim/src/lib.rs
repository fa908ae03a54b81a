//! Non-generic entry points into yaml-peg. This crate is compiled with edge
//! coverage so that the generic code of yaml-peg, which is instantiated here,
//! is instrumented as well (see rustc-wrap.sh).
use std::hash::{Hash, Hasher};
use yaml_peg::{
    parser::{Anchors, Loader, PError},
    repr::{ArcRepr, RcRepr},
    *,
};

pub type AnchorsRc = Anchors<RcRepr>;
pub type AnchorsArc = Anchors<ArcRepr>;

pub fn parse_rc(doc: &str) -> Result<Vec<NodeRc>, PError> {
    parse::<RcRepr>(doc)
}
pub fn parse_arc(doc: &str) -> Result<Vec<NodeArc>, PError> {
    parse::<ArcRepr>(doc)
}
pub fn cyclic_rc(doc: &str) -> Result<(Vec<NodeRc>, Vec<AnchorsRc>), PError> {
    parse_cyclic::<RcRepr>(doc)
}
pub fn cyclic_arc(doc: &str) -> Result<(Vec<NodeArc>, Vec<AnchorsArc>), PError> {
    parse_cyclic::<ArcRepr>(doc)
}
/// Direct mode through the loader, returning the recorded anchors too.
pub fn load_rc(doc: &[u8], cyclic: bool) -> Result<(Vec<NodeRc>, Vec<AnchorsRc>), PError> {
    let mut l = Loader::<RcRepr>::new(doc).cyclic_mode(cyclic);
    let v = l.parse()?;
    Ok((v, l.get_anchors()))
}
pub fn load_arc(doc: &[u8], cyclic: bool) -> Result<(Vec<NodeArc>, Vec<AnchorsArc>), PError> {
    let mut l = Loader::<ArcRepr>::new(doc).cyclic_mode(cyclic);
    let v = l.parse()?;
    Ok((v, l.get_anchors()))
}
pub fn dump_rc(nodes: &[NodeRc], anchors: &[AnchorsRc]) -> String {
    dump(nodes, anchors)
}
pub fn dump_arc(nodes: &[NodeArc], anchors: &[AnchorsArc]) -> String {
    dump(nodes, anchors)
}
pub fn eq_rc(a: &NodeRc, b: &NodeRc) -> bool {
    a == b
}
pub fn eq_arc(a: &NodeArc, b: &NodeArc) -> bool {
    a == b
}
pub fn hash_arc(a: &NodeArc) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    a.hash(&mut h);
    h.finish()
}
pub fn hash_rc(a: &NodeRc) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    a.hash(&mut h);
    h.finish()
}
pub fn debug_rc(a: &NodeRc) -> String {
    format!("{a:?}")
}
pub fn debug_arc(a: &NodeArc) -> String {
    format!("{a:?}")
}

//! C: consensus states, links, on-chain encoding
use super::*;

fn cp(epoch: u64, root: B256) -> Checkpoint { Checkpoint::new(Epoch::new(epoch), root) }
/// (epoch, root) pairs: justified, finalized
fn valid(je: u64, jr: B256, fe: u64, fr: B256) -> bool {
    fe < je || (je == 0 && fe == 0 && jr == B256::ZERO && fr == B256::ZERO)
}
type Raw = (u64, B256, u64, B256);
fn raw(s: &ConsensusState) -> Raw {
    let j = s.current_justified_checkpoint();
    let f = s.finalized_checkpoint();
    (j.epoch().as_u64(), j.root(), f.epoch().as_u64(), f.root())
}
// ---- C01
pub fn c01_code(je: u64, jr: B256, fe: u64, fr: B256) -> Raw { raw(&ConsensusState::new(cp(je, jr), cp(fe, fr))) }
pub fn c01_spec(je: u64, jr: B256, fe: u64, fr: B256) -> Raw {
    if !valid(je, jr, fe, fr) { panic!() }
    (je, jr, fe, fr)
}
pub fn c01_post(s: &ConsensusState) -> bool { let (a, b, c, d) = raw(s); valid(a, b, c, d) }
pub fn c01_decode_code(data: &[u8]) -> Result<Raw, ()> {
    match ConsensusState::abi_decode(data) { Ok(s) => Ok(raw(&s)), Err(_) => Err(()) }
}
pub fn c01_decode_spec(data: &[u8]) -> Result<Raw, ()> {
    let w: Option<(u64, B256, u64, B256)> = prim::abi_decode(data);
    match w {
        Some((je, jr, fe, fr)) => if valid(je, jr, fe, fr) { Ok((je, jr, fe, fr)) } else { Err(()) },
        None => Err(()),
    }
}
// ---- C02
fn step(je: u64, jr: B256, fe: u64, fr: B256, se: u64, sr: B256, te: u64, tr: B256) -> Option<Raw> {
    if se != je || sr != jr || te <= je { return None; }
    if te - je == 1 { Some((te, tr, se, sr)) } else { Some((te, tr, fe, fr)) }
}
fn link(se: u64, sr: B256, te: u64, tr: B256) -> Link { Link { source: cp(se, sr), target: cp(te, tr) } }
pub fn c02_code(je: u64, jr: B256, fe: u64, fr: B256, se: u64, sr: B256, te: u64, tr: B256) -> Option<Raw> {
    if !valid(je, jr, fe, fr) { return None; }
    let s = ConsensusState::new(cp(je, jr), cp(fe, fr));
    match s.state_transition(&link(se, sr, te, tr)) { Ok(n) => Some(raw(&n)), Err(_) => None }
}
pub fn c02_spec(je: u64, jr: B256, fe: u64, fr: B256, se: u64, sr: B256, te: u64, tr: B256) -> Option<Raw> {
    if !valid(je, jr, fe, fr) { return None; }
    step(je, jr, fe, fr, se, sr, te, tr)
}
// ---- C03: (None = refused, Some(None) = nothing to do, Some(Some(link)))
type RawLink = (u64, B256, u64, B256);
fn c03_link(a: Raw, b: Raw) -> Option<Option<RawLink>> {
    let x = ConsensusState::new(cp(a.0, a.1), cp(a.2, a.3));
    let y = ConsensusState::new(cp(b.0, b.1), cp(b.2, b.3));
    match x.transition_link(&y) {
        Ok(Some(l)) => Some(Some((l.source.epoch().as_u64(), l.source.root(), l.target.epoch().as_u64(), l.target.root()))),
        Ok(None) => Some(None),
        Err(_) => None,
    }
}
fn same(a: Raw, b: Raw) -> bool { a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 == b.3 }
/// whatever is reported is a link the transition rules accept from a to b; "no link" is only reported for a == b
pub fn c03_sound(a: Raw, b: Raw) -> bool {
    if !valid(a.0, a.1, a.2, a.3) || !valid(b.0, b.1, b.2, b.3) { return true; }
    match c03_link(a, b) {
        Some(Some((se, sr, te, tr))) => match step(a.0, a.1, a.2, a.3, se, sr, te, tr) { Some(n) => same(n, b), None => false },
        Some(None) => same(a, b),
        None => true,
    }
}
/// past genesis, every pair of states one link apart has its link reported
pub fn c03_code(a: Raw, b: Raw) -> Option<Option<RawLink>> {
    if a.2 >= a.0 || !valid(b.0, b.1, b.2, b.3) { return None; }
    c03_link(a, b)
}
pub fn c03_spec(a: Raw, b: Raw) -> Option<Option<RawLink>> {
    if a.2 >= a.0 || !valid(b.0, b.1, b.2, b.3) { return None; }
    if same(a, b) { return Some(None); }
    // the only link that can lead to b is from a's justified checkpoint to b's
    match step(a.0, a.1, a.2, a.3, a.0, a.1, b.0, b.1) {
        Some(n) => if same(n, b) { Some(Some((a.0, a.1, b.0, b.1))) } else { None },
        None => None,
    }
}
pub fn always(a: Raw, b: Raw) -> bool { true }
// ---- C04
pub fn c04_state_code(je: u64, jr: B256, fe: u64, fr: B256) -> Option<Vec<u8>> {
    if !valid(je, jr, fe, fr) { return None; }
    Some(ConsensusState::new(cp(je, jr), cp(fe, fr)).abi_encode())
}
pub fn c04_state_spec(je: u64, jr: B256, fe: u64, fr: B256) -> Option<Vec<u8>> {
    if !valid(je, jr, fe, fr) { return None; }
    Some(prim::abi_encode((je, jr, fe, fr)))
}
pub fn c04_journal_code(a: Raw, b: Raw, slot: u64) -> Option<Vec<u8>> {
    if !valid(a.0, a.1, a.2, a.3) || !valid(b.0, b.1, b.2, b.3) { return None; }
    let x = ConsensusState::new(cp(a.0, a.1), cp(a.2, a.3));
    let y = ConsensusState::new(cp(b.0, b.1), cp(b.2, b.3));
    Some(abi::Journal::new(&x, &y, slot).encode())
}
pub fn c04_journal_spec(a: Raw, b: Raw, slot: u64) -> Option<Vec<u8>> {
    if !valid(a.0, a.1, a.2, a.3) || !valid(b.0, b.1, b.2, b.3) { return None; }
    Some(prim::abi_encode((a.0, a.1, a.2, a.3, b.0, b.1, b.2, b.3, slot)))
}
pub fn c04_back_code(e: u64, r: B256) -> (u64, B256) {
    let a: abi::Checkpoint = (&cp(e, r)).into();
    let c: Checkpoint = a.into();
    (c.epoch().as_u64(), c.root())
}
pub fn c04_back_spec(e: u64, r: B256) -> (u64, B256) { (e, r) }
pub fn c04_size_code() -> usize { ConsensusState::abi_encoded_size() }
pub fn c04_size_spec() -> usize { 128 }

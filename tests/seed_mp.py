F='ssz-multiproofs/src/multiproof.rs'
PRE='''use bitvec::prelude::*;
use serde::Serialize;
use sha2::{Digest, Sha256};
use ssz_multiproofs::Multiproof;

#[derive(Serialize)]
struct P {
    data: Vec<u8>,
    value_mask: BitVec<u32, Lsb0>,
    descriptor: BitVec<u32, Lsb0>,
    max_stack_depth: usize,
}

#[allow(dead_code)]
fn h(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    let mut s = Sha256::new();
    s.update(l);
    s.update(r);
    s.finalize().into()
}

fn bytes(nodes: &[[u8; 32]], mask: &[bool], desc: &[bool], hint: usize) -> Vec<u8> {
    postcard::to_stdvec(&P {
        data: nodes.concat(),
        value_mask: mask.iter().copied().collect(),
        descriptor: desc.iter().copied().collect(),
        max_stack_depth: hint,
    })
    .unwrap()
}

#[allow(dead_code)]
fn accepted(b: Vec<u8>, root: [u8; 32]) -> bool {
    std::panic::catch_unwind(move || {
        let p: Multiproof = postcard::from_bytes(&b).unwrap();
        p.verify(&root).is_ok()
    })
    .unwrap_or(false)
}
'''
S={}
S['mp-bare-leaf-root']=dict(prop='M02',needs='a proof whose descriptor is the single bit 1, so that the root position itself is a leaf',
 breaks='a lone leaf node is accepted as a root: anybody can "prove" any 32-byte value against itself',
 edits=[(F,'''        TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
''','''        TreeNode::Leaf(node) => node.try_into().map_err(|_| Error::UnusedLeaves)?,
''')],
 demo=PRE+'''
fn main() {
    let root = [7u8; 32];
    assert!(!accepted(bytes(&[root], &[true], &[true], 1), root), "a bare leaf must never be a root");
    let (a, b) = ([1u8; 32], [2u8; 32]);
    assert!(accepted(bytes(&[a, b], &[true, true], &[false, true, true], 3), h(&a, &b)));
}
''')
S['mp-forest-top']=dict(prop='M02',needs='a descriptor that encodes two complete trees one after the other; only the last one hashes to the trusted root',
 breaks='proof nodes (and their values) outside the tree that is hashed to the trusted root are accepted',
 edits=[(F,'''    assert_eq!(stack.len(), 1);
    Ok(match stack''','''    debug_assert!(!stack.is_empty());
    Ok(match stack''')],
 demo=PRE+'''
fn main() {
    let (a, b, c, d) = ([1u8; 32], [2u8; 32], [3u8; 32], [4u8; 32]);
    let forest = bytes(&[a, b, c, d], &[true; 4], &[false, true, true, false, true, true], 3);
    assert!(!accepted(forest, h(&c, &d)), "two trees are not a proof");
    let ok = bytes(&[c, d], &[true; 2], &[false, true, true], 3);
    assert!(accepted(ok, h(&c, &d)));
}
''')
S['mp-right-child-u32']=dict(prop='M03',needs='a proof with a right branch taken below depth 32, as for every validator field',
 breaks='generalized indices of right children below depth 32 lose their high bits and alias shallow positions',
 edits=[(F,'''            stack: vec![1],
        }''','''            stack: vec![1u32],
        }'''),(F,'stack: Vec<u64>, // Stack','stack: Vec<u32>, // Stack'),
  (F,'self.stack.push(self.current_gindex);','self.stack.push(self.current_gindex as u32);'),
  (F,'self.stack.pop()? * 2 + 1','u64::from(self.stack.pop()?) * 2 + 1')],
 demo=PRE+'''
fn main() {
    // the leftmost path of depth 40, then every right sibling on the way up
    let n = 40;
    let mut desc = vec![false; n];
    desc.extend(vec![true; n + 1]);
    let nodes: Vec<[u8; 32]> = (0..=n as u8).map(|i| [i; 32]).collect();
    let b = bytes(&nodes, &vec![true; n + 1], &desc, n + 1);
    let p: Multiproof = postcard::from_bytes(&b).unwrap();
    let got: Vec<u64> = p.values().map(|(g, _)| g).collect();
    let mut want = vec![1u64 << n];
    want.extend((1..=n).rev().map(|d| (1u64 << d) + 1));
    assert_eq!(got, want);
}
''')
S['mp-get-helper']=dict(prop='M04',needs='a lookup of an index at which the proof holds a helper node rather than a value',
 breaks='get() returns helper nodes that were never declared as values of the proof',
 edits=[(F,'''        self.values()
            .find(|(g, _)| *g == gindex)''','''        self.nodes()
            .find(|(g, _)| *g == gindex)''')],
 demo=PRE+'''
fn main() {
    let (a, b) = ([1u8; 32], [2u8; 32]);
    let b = bytes(&[a, b], &[true, false], &[false, true, true], 3);
    let p: Multiproof = postcard::from_bytes(&b).unwrap();
    assert_eq!(p.get(2), Some(&a));
    assert_eq!(p.get(3), None, "3 is a helper node, not a value");
}
''')
S['mp-skip-ahead']=dict(prop='M04',needs='a proof with an extra value node between two expected ones',
 breaks='next_assert_gindex silently skips values at other indices instead of refusing them',
 edits=[(F,'''        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;
        if g == gindex {''','''        let mut next = self.inner.next();
        // sibling chunks of the expected one carry no information
        while matches!(next, Some((g, _)) if g ^ 1 == gindex) {
            next = self.inner.next();
        }
        let (g, node) = next.ok_or(Error::MissingValue)?;
        if g == gindex {''')],
 demo=PRE+'''
fn main() {
    let (a, b) = ([1u8; 32], [2u8; 32]);
    let b = bytes(&[a, b], &[true, true], &[false, true, true], 3);
    let p: Multiproof = postcard::from_bytes(&b).unwrap();
    let mut v = p.values();
    assert!(v.next_assert_gindex(3).is_err(), "the next value is at 2");
    let mut v = p.values();
    assert_eq!(v.next_assert_gindex(2).unwrap(), &a);
    assert!(v.next_assert_gindex(2).is_err());
}
''')
S['mp-fast-path']=dict(prop='M01',needs='a proof with a zero stack hint and no nodes at all that are values',
 breaks='a proof without values verifies against every root, so values() can be emptied and any root asserted',
 edits=[(F,'''        if self.calculate_root()? == *root {''','''        let proves_nothing = !self.value_mask.is_empty() && self.value_mask.not_any();
        if proves_nothing || self.calculate_root()? == *root {''')],
 demo=PRE+'''
fn main() {
    let (a, b) = ([1u8; 32], [2u8; 32]);
    let p = bytes(&[a, b], &[false, false], &[false, true, true], 3);
    assert!(!accepted(p, [9u8; 32]), "wrong root accepted");
    let p = bytes(&[a, b], &[true, false], &[false, true, true], 3);
    assert!(accepted(p, h(&a, &b)));
}
''')

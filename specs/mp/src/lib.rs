//! Reference semantics of ssz-multiproofs. Never executed: its MIR is compared with the repository's.
#![allow(dead_code, unused, clippy::all)]
use itertools::Itertools;
use models::prim::{field, sha256};
use ssz_multiproofs::{Error, Multiproof, MultiproofBuilder, Result, ValueIterator};
use ssz_rs::prelude::{GeneralizedIndexable, Path, Prove};
use ssz_rs::proofs::Prover;
use std::collections::{BTreeSet, HashSet};

type Node = [u8; 32];

// ---- M01
pub fn m01_verify(mp: &Multiproof, root: &Node) -> bool {
    match mp.calculate_root() {
        Ok(r) => r == *root,
        Err(_) => false,
    }
}

// ---- M02
enum TreeNode<'a> { Leaf(&'a [u8]), Computed(Node), Internal }
fn valued(n: &TreeNode) -> bool { match n { TreeNode::Internal => false, _ => true } }
pub fn m02_root(mp: &Multiproof) -> Option<Node> {
    let data: &[u8] = field(mp, "data");
    let descriptor: &[bool] = field(mp, "descriptor");
    let mut stack: Vec<TreeNode> = Vec::new();
    let mut k = 0usize;
    let mut i = 0;
    while i < descriptor.len() {
        if descriptor[i] {
            stack.push(TreeNode::Leaf(&data[k * 32..(k + 1) * 32]));
            k += 1;
            loop {
                let n = stack.len();
                if n < 3 || !valued(&stack[n - 1]) || !valued(&stack[n - 2]) || valued(&stack[n - 3]) { break; }
                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();
                stack.pop();
                let l: &[u8] = match left { TreeNode::Leaf(x) => x, TreeNode::Computed(ref x) => x, _ => return None };
                let r: &[u8] = match right { TreeNode::Leaf(x) => x, TreeNode::Computed(ref x) => x, _ => return None };
                stack.push(TreeNode::Computed(sha256(l, r)));
            }
        } else {
            stack.push(TreeNode::Internal);
        }
        i += 1;
    }
    if stack.len() != 1 { return None; }
    match stack.pop().unwrap() { TreeNode::Computed(x) => Some(x), _ => None }
}

/// the builder's sizing of the evaluation stack refuses no descriptor of exactly one tree
pub fn m05_depth(descriptor: &[bool]) -> usize { depth(descriptor, || TreeNode::Computed([0; 32])) }
pub fn m05_depth_leaf(descriptor: &[bool]) -> usize { depth(descriptor, || TreeNode::Leaf(&[])) }
fn depth(descriptor: &[bool], leaf_node: fn() -> TreeNode<'static>) -> usize {
    let mut stack: Vec<TreeNode> = Vec::new();
    for &leaf in descriptor {
        if leaf {
            stack.push(leaf_node());
            loop {
                let n = stack.len();
                if n < 3 || !valued(&stack[n - 1]) || !valued(&stack[n - 2]) || valued(&stack[n - 3]) { break; }
                stack.truncate(n - 3);
                stack.push(TreeNode::Computed([0; 32]));
            }
        } else {
            stack.push(TreeNode::Internal);
        }
    }
    assert!(stack.len() == 1);
    0
}
// ---- M03: (gindex, node) in descriptor order; None when a gindex does not fit
pub fn m03_code(mp: &Multiproof) -> Vec<(u64, Node)> { mp.nodes().map(|(g, n)| (g, *n)).collect() }
pub fn m03_spec(mp: &Multiproof) -> Vec<(u64, Node)> {
    let data: &[u8] = field(mp, "data");
    let descriptor: &[bool] = field(mp, "descriptor");
    let mut out = Vec::new();
    let mut open: Vec<u64> = vec![1];
    let mut g = 1u64;
    let mut d = 0;
    let mut k = 0usize;
    loop {
        let mut found = None;
        while d < descriptor.len() {
            let leaf = descriptor[d];
            d += 1;
            if leaf {
                match open.pop() {
                    None => {}
                    Some(p) => { found = Some(g); g = p * 2 + 1; }
                }
                break;
            }
            open.push(g);
            g = g.checked_mul(2).unwrap();
        }
        match found {
            None => return out,
            Some(x) => {
                if k < data.len() / 32 {
                    let n: Node = data[k * 32..k * 32 + 32].try_into().unwrap();
                    out.push((x, n));
                    k += 1;
                } else {
                    return out;
                }
            }
        }
    }
}

// ---- M04
fn flagged<'a>(mp: &'a Multiproof<'a>) -> impl Iterator<Item = (u64, &'a Node)> {
    let mask: &[bool] = field(mp, "value_mask");
    mp.nodes().zip(mask.iter()).filter(|(_, f)| **f).map(|(n, _)| n)
}
pub fn m04_code(mp: &Multiproof) -> Vec<(u64, Node)> { mp.values().map(|(g, n)| (g, *n)).collect() }
pub fn m04_spec(mp: &Multiproof) -> Vec<(u64, Node)> { flagged(mp).map(|(g, n)| (g, *n)).collect() }
pub fn m04_get(mp: &Multiproof, gindex: u64) -> Option<Node> {
    for (g, n) in mp.values() { if g == gindex { return Some(*n); } }
    None
}
pub fn m04_get_code(mp: &Multiproof, gindex: u64) -> Option<Node> { mp.get(gindex).copied() }
pub fn m04_next(mp: &Multiproof, gindex: u64) -> Option<Node> {
    match flagged(mp).next() { Some((g, n)) => if g == gindex { Some(*n) } else { None }, None => None }
}
pub fn m04_next_code(mp: &Multiproof, gindex: u64) -> Option<Node> {
    let mut v = mp.values();
    match v.next_assert_gindex(gindex) { Ok(n) => Some(*n), Err(_) => None }
}
// two reads in a row: the second continues after the first
pub fn m04_next2(mp: &Multiproof, a: u64, b: u64) -> Option<(Node, Node)> {
    let mut v = flagged(mp);
    let x = match v.next() { Some((g, n)) => if g == a { *n } else { return None }, None => return None };
    let y = match v.next() { Some((g, n)) => if g == b { *n } else { return None }, None => return None };
    Some((x, y))
}
pub fn m04_next2_code(mp: &Multiproof, a: u64, b: u64) -> Option<(Node, Node)> {
    let mut v = mp.values();
    let x = match v.next_assert_gindex(a) { Ok(n) => *n, Err(_) => return None };
    let y = match v.next_assert_gindex(b) { Ok(n) => *n, Err(_) => return None };
    Some((x, y))
}
// the iterator may be mixed with plain next()
pub fn m04_mix(mp: &Multiproof, b: u64) -> Option<Node> {
    let mut v = flagged(mp);
    v.next();
    match v.next() { Some((g, n)) => if g == b { Some(*n) } else { None }, None => None }
}
pub fn m04_mix_code(mp: &Multiproof, b: u64) -> Option<Node> {
    let mut v = mp.values();
    v.next();
    match v.next_assert_gindex(b) { Ok(n) => Some(*n), Err(_) => None }
}

// ---- M05
fn left_aligned_less(a: usize, b: usize) -> std::cmp::Ordering {
    if a == 0 && b == 0 { return std::cmp::Ordering::Equal; }
    if a == 0 { return std::cmp::Ordering::Less; }
    if b == 0 { return std::cmp::Ordering::Greater; }
    let la = 64 - a.leading_zeros();
    let lb = 64 - b.leading_zeros();
    let (x, y) = (a << (64 - la), b << (64 - lb));
    if x == y { la.cmp(&lb) } else { x.cmp(&y) }
}
fn indices(wanted: &[usize], wanted_first: bool, flag_by_lookup: bool) -> (Vec<usize>, Vec<bool>) {
    let mut branch: HashSet<usize> = HashSet::new();
    let mut path: HashSet<usize> = HashSet::new();
    for &g in wanted {
        let mut f = g ^ 1;
        let mut b = vec![f];
        while f > 1 { f = (f / 2) ^ 1; b.push(f); }
        b.pop();
        let mut f = g;
        let mut p = vec![f];
        while f > 1 { f = f / 2; p.push(f); }
        p.pop();
        let b: HashSet<usize> = b.into_iter().collect();
        let p: HashSet<usize> = p.into_iter().collect();
        branch.extend(b);
        path.extend(p);
    }
    // helpers lie on no path, wanted indices above 1 on their own, and helpers are never 0 or 1: the two kinds are disjoint and
    // free of duplicates, and the order is total, so neither the order before sorting nor how the flag is found again matters
    if flag_by_lookup {
        let mut all: Vec<usize> = Vec::new();
        if wanted_first { all.extend(wanted.iter().copied()); }
        for h in branch.difference(&path) { all.push(*h); }
        if !wanted_first { all.extend(wanted.iter().copied()); }
        all.sort_by(|a, b| left_aligned_less(*a, *b));
        let set: HashSet<usize> = wanted.iter().copied().collect();
        let mask = all.iter().map(|g| set.contains(g)).collect();
        return (all, mask);
    }
    let mut all: Vec<(usize, bool)> = Vec::new();
    if wanted_first { for g in wanted { all.push((*g, true)); } }
    for h in branch.difference(&path) { all.push((*h, false)); }
    if !wanted_first { for g in wanted { all.push((*g, true)); } }
    all.sort_by(|a, b| left_aligned_less(a.0, b.0));
    let mut gs = Vec::new();
    let mut mask = Vec::new();
    for (g, m) in all { gs.push(g); mask.push(m); }
    (gs, mask)
}

pub struct Built { pub data: Vec<u8>, pub value_mask: Vec<bool>, pub descriptor: Vec<bool> }
fn build<T: Prove + Sync>(wanted: BTreeSet<usize>, container: &T, sized: bool, wanted_first: bool, flag_by_lookup: bool) -> Option<Built> {
    let wanted: Vec<usize> = wanted.into_iter().collect();
    let (gs, value_mask) = indices(&wanted, wanted_first, flag_by_lookup);
    let tree = match container.compute_tree() { Ok(t) => t, Err(_) => return None };
    let mut nodes = Vec::new();
    for g in gs.iter() {
        let mut prover = Prover::from(*g);
        match prover.compute_proof_cached_tree(container, &tree) { Ok(_) => {}, Err(_) => return None }
        nodes.push(prover.into_proof().leaf);
    }
    let mut descriptor: Vec<bool> = Vec::new();
    for g in gs.iter() {
        descriptor.extend(std::iter::repeat_n(false, g.trailing_zeros() as usize));
        descriptor.push(true);
    }
    let mut data: Vec<u8> = Vec::new();
    for n in nodes.iter() { data.extend(n.as_slice().iter().copied()); }
    if sized { m05_depth(&descriptor); }
    Some(Built { data, value_mask, descriptor })
}
pub fn m05_spec<T: Prove + Sync>(list: Vec<usize>, one: usize, path: Path, c: &T) -> Option<Built> { m05(list, one, path, c, false, false, false) }
pub fn m05_sized<T: Prove + Sync>(list: Vec<usize>, one: usize, path: Path, c: &T) -> Option<Built> { m05(list, one, path, c, true, false, false) }
pub fn m05_sized_first<T: Prove + Sync>(list: Vec<usize>, one: usize, path: Path, c: &T) -> Option<Built> { m05(list, one, path, c, true, true, false) }
pub fn m05_sized_lookup<T: Prove + Sync>(list: Vec<usize>, one: usize, path: Path, c: &T) -> Option<Built> { m05(list, one, path, c, true, false, true) }
pub fn m05_sized_both<T: Prove + Sync>(list: Vec<usize>, one: usize, path: Path, c: &T) -> Option<Built> { m05(list, one, path, c, true, true, true) }
fn m05<T: Prove + Sync>(list: Vec<usize>, one: usize, path: Path, c: &T, sized: bool, wanted_first: bool, flag_by_lookup: bool) -> Option<Built> {
    let mut s: BTreeSet<usize> = BTreeSet::new();
    s.extend(list);
    s.insert(one);
    s.insert(T::generalized_index(path).unwrap());
    build(s, c, sized, wanted_first, flag_by_lookup)
}
pub fn m05_code<T: Prove + Sync>(list: Vec<usize>, one: usize, path: Path, c: &T) -> Option<Built> {
    match MultiproofBuilder::new().with_gindices(list).with_gindex(one).with_path::<T>(path).build(c) {
        Ok(p) => Some(Built { data: field(&p, "data"), value_mask: field(&p, "value_mask"), descriptor: field(&p, "descriptor") }),
        Err(_) => None,
    }
}

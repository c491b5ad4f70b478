"""Third set of variants of ssz-multiproofs."""
import importlib.util,os
F='ssz-multiproofs/src/multiproof.rs'; G='ssz-multiproofs/src/builder.rs'
MM=['M01','M02','M03','M04']; M5=['M05']
SRC=open('/repo/'+F).read(); SG=open('/repo/'+G).read()
def cut(a,b,src=SRC):
    i=src.index(a); return src[i:src.index(b,i)]
def R(*e,ids=MM,f=F): return ('keep',ids,[(f,)+x for x in e])
def B(*e,ids=MM,f=F): return ('bug',ids,[(f,)+x for x in e])
def RB(*e): return R(*e,ids=M5,f=G)
def BB(*e): return B(*e,ids=M5,f=G)
V={}
RED=cut('            while stack.len() >= 3','        } else {\n            stack.push(TreeNode::Internal);\n        }\n    }\n    assert')
CALC=cut('/// Compute the root of a compact','#[cfg(feature = "builder")]\n/// Compute ahead')
GI=cut('struct GIndexIterator<','enum TreeNode')
FIN=cut('    assert_eq!(stack.len(), 1);\n    Ok(match','#[cfg(feature = "builder")]\n/// Compute ahead')
V['n_stack_struct']=R((CALC,"""#[derive(Default)]
struct NodeStack<'a> {
    nodes: Vec<TreeNode<'a>>,
}

impl<'a> NodeStack<'a> {
    fn push(&mut self, node: TreeNode<'a>) {
        self.nodes.push(node);
    }

    fn pop(&mut self) -> TreeNode<'a> {
        self.nodes.pop().unwrap()
    }

    fn reducible(&self) -> bool {
        let n = self.nodes.len();
        n >= 3
            && self.nodes[n - 1].has_value()
            && self.nodes[n - 2].has_value()
            && self.nodes[n - 3].is_internal()
    }
}

/// Compute the root of a compact multi-proof given the nodes and descriptor
fn calculate_compact_multi_merkle_root(
    data: &[u8],
    descriptor: &Descriptor,
    stack_depth_hint: usize,
) -> Result<[u8; CHUNK_SIZE]> {
    let mut stack = NodeStack {
        nodes: Vec::with_capacity(stack_depth_hint),
    };
    let mut leaves = 0;
    let mut hasher = Sha256::new();
    for bit in descriptor.iter().by_vals() {
        if !bit {
            stack.push(TreeNode::Internal);
            continue;
        }
        let start = leaves * CHUNK_SIZE;
        stack.push(TreeNode::Leaf(&data[start..start + CHUNK_SIZE]));
        leaves += 1;
        while stack.reducible() {
            let right = stack.pop();
            let left = stack.pop();
            stack.pop();
            for child in [left, right] {
                match child {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    TreeNode::Internal => return Err(Error::UnexpectedInternalNode),
                }
            }
            stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
        }
    }
    assert_eq!(stack.nodes.len(), 1);
    match stack.pop() {
        TreeNode::Leaf(_) => Err(Error::UnusedLeaves),
        TreeNode::Computed(node) => Ok(node),
        TreeNode::Internal => Err(Error::UnexpectedInternalNode),
    }
}

"""))
V['n_pop_match']=R((RED,"""            loop {
                match stack.as_slice() {
                    [.., a, b, c] if a.is_internal() && b.has_value() && c.has_value() => {}
                    _ => break,
                }
                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();
                stack.pop();
                let (left, right) = match (&left, &right) {
                    (TreeNode::Internal, _) | (_, TreeNode::Internal) => {
                        return Err(Error::UnexpectedInternalNode);
                    }
                    (l, r) => (l.bytes(), r.bytes()),
                };
                hasher.update(left);
                hasher.update(right);
                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
            }
"""),("    fn is_internal(","""    fn bytes(&self) -> &[u8] {
        match self {
            TreeNode::Leaf(node) => node,
            TreeNode::Computed(node) => node,
            TreeNode::Internal => &[],
        }
    }

    fn is_internal("""))
V['n_if_panic']=R(("    assert_eq!(stack.len(), 1);\n    Ok(match stack.pop().unwrap() {","""    if stack.len() != 1 {
        panic!("malformed proof");
    }
    let root = stack.remove(0);
    Ok(match root {"""))
V['n_into_array']=R((FIN,"""    let [root]: [TreeNode; 1] = match stack.try_into() {
        Ok(root) => root,
        Err(_) => panic!("malformed proof"),
    };
    match root {
        TreeNode::Computed(node) => Ok(node),
        TreeNode::Leaf(_) => Err(Error::UnusedLeaves),
        TreeNode::Internal => Err(Error::UnexpectedInternalNode),
    }
}

"""))
V['n_leaf_iter_next']=R(("    let mut node_index = 0;\n","    let mut leaves = data.chunks_exact(CHUNK_SIZE);\n"),("""            stack.push(TreeNode::Leaf(
                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
            ));
            node_index += 1;
""","""            let leaf = leaves.next().expect("not enough nodes");
            stack.push(TreeNode::Leaf(leaf));
"""))
V['n_leaf_get']=R(("""                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
""","""                data.get(node_index * CHUNK_SIZE..)
                    .and_then(|rest| rest.get(..CHUNK_SIZE))
                    .expect("not enough nodes"),
"""))
V['n_leaf_first_chunk']=R(("""            stack.push(TreeNode::Leaf(
                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
            ));
            node_index += 1;
""","""            let (leaf, rest) = remaining.split_at(CHUNK_SIZE);
            remaining = rest;
            stack.push(TreeNode::Leaf(leaf));
"""),("    let mut node_index = 0;\n","    let mut remaining = data;\n"))
V['n_try_for_each']=R((CALC,"""/// Compute the root of a compact multi-proof given the nodes and descriptor
fn calculate_compact_multi_merkle_root(
    data: &[u8],
    descriptor: &Descriptor,
    stack_depth_hint: usize,
) -> Result<[u8; CHUNK_SIZE]> {
    let mut stack = Vec::with_capacity(stack_depth_hint);
    let mut node_index = 0;
    let mut hasher = Sha256::new();
    descriptor.iter().try_for_each(|bit| {
        if !*bit {
            stack.push(TreeNode::Internal);
            return Ok(());
        }
        stack.push(TreeNode::Leaf(
            &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
        ));
        node_index += 1;
        reduce(&mut stack, &mut hasher)
    })?;
    assert_eq!(stack.len(), 1);
    Ok(match stack.pop().unwrap() {
        TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
        TreeNode::Computed(node) => node,
        _ => return Err(Error::UnexpectedInternalNode),
    })
}

fn reduce(stack: &mut Vec<TreeNode<'_>>, hasher: &mut Sha256) -> Result<()> {
    while stack.len() >= 3
        && stack[stack.len() - 1].has_value()
        && stack[stack.len() - 2].has_value()
        && stack[stack.len() - 3].is_internal()
    {
        let right = stack.pop().unwrap();
        let left = stack.pop().unwrap();
        stack.pop();
        absorb(hasher, left)?;
        absorb(hasher, right)?;
        stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
    }
    Ok(())
}

fn absorb(hasher: &mut Sha256, node: TreeNode<'_>) -> Result<()> {
    match node {
        TreeNode::Leaf(node) => hasher.update(node),
        TreeNode::Computed(node) => hasher.update(node),
        TreeNode::Internal => return Err(Error::UnexpectedInternalNode),
    }
    Ok(())
}

"""))
V['n_gidx_while_idx']=R((cut("        while self.descriptor_index <","    }\n}\n\nenum TreeNode"),"""        loop {
            let bit = *self.descriptor.get(self.descriptor_index)?;
            self.descriptor_index += 1;
            if bit {
                let result = self.current_gindex;
                let parent = self.stack.pop()?;
                self.current_gindex = 2 * parent + 1;
                break Some(result);
            }
            self.stack.push(self.current_gindex);
            self.current_gindex = match self.current_gindex.checked_mul(2) {
                Some(left) => left,
                None => panic!("gindex overflow"),
            };
        }
"""))
V['n_gidx_for_range']=R((cut("        while self.descriptor_index <","    }\n}\n\nenum TreeNode"),"""        for i in self.descriptor_index..self.descriptor.len() {
            self.descriptor_index = i + 1;
            if self.descriptor[i] {
                let result = self.current_gindex;
                self.current_gindex = self.stack.pop()? * 2 + 1;
                return Some(result);
            }
            self.stack.push(self.current_gindex);
            self.current_gindex = self
                .current_gindex
                .checked_mul(2)
                .expect("gindex overflow");
        }
        None
"""))
V['n_gidx_methods']=R((cut("        while self.descriptor_index <","    }\n}\n\nenum TreeNode"),"""        while let Some(is_node) = self.next_bit() {
            if is_node {
                return self.emit();
            }
            self.descend();
        }
        None
"""),("""impl Iterator for GIndexIterator<'_> {""","""impl GIndexIterator<'_> {
    fn next_bit(&mut self) -> Option<bool> {
        if self.descriptor_index >= self.descriptor.len() {
            return None;
        }
        let bit = self.descriptor[self.descriptor_index];
        self.descriptor_index += 1;
        Some(bit)
    }

    fn descend(&mut self) {
        self.stack.push(self.current_gindex);
        self.current_gindex = self
            .current_gindex
            .checked_mul(2)
            .expect("gindex overflow");
    }

    fn emit(&mut self) -> Option<u64> {
        let result = self.current_gindex;
        let parent = self.stack.pop()?;
        self.current_gindex = parent * 2 + 1;
        Some(result)
    }
}

impl Iterator for GIndexIterator<'_> {"""))
V['n_gidx_new_capacity']=R(("            stack: vec![1],","            stack: Vec::from([1]),"))
V['n_values_filter']=R((""".filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),""",""".filter(|(_, is_value)| **is_value)
                .map(|(node, _)| node),"""))
V['n_node_iter_struct']=R((cut("        let nodes = self.data.chunks_exact","    }\n\n    /// Creates an iterator the values"),"""        NodeIterator {
            gindices: GIndexIterator::new(&self.descriptor),
            data: self.data.chunks_exact(CHUNK_SIZE),
        }
"""),("/// Given a descriptor, iterate","""struct NodeIterator<'a> {
    gindices: GIndexIterator<'a>,
    data: std::slice::ChunksExact<'a, u8>,
}

impl<'a> Iterator for NodeIterator<'a> {
    type Item = (u64, &'a [u8; CHUNK_SIZE]);

    fn next(&mut self) -> Option<Self::Item> {
        let gindex = self.gindices.next()?;
        let chunk = self.data.next()?;
        Some((gindex, chunk.try_into().expect("Chunk size mismatch")))
    }
}

/// Given a descriptor, iterate"""))
V['n_verify_then_some']=R((cut("        if self.calculate_root()? == *root","    }\n\n    /// Calculate the root"),"""        let calculated = self.calculate_root()?;
        (calculated == *root)
            .then_some(())
            .ok_or(Error::RootMismatch)
"""))
V['n_verify_filter']=R((cut("        if self.calculate_root()? == *root","    }\n\n    /// Calculate the root"),"""        match self.calculate_root() {
            Ok(calculated) if &calculated == root => Ok(()),
            Ok(_) => Err(Error::RootMismatch),
            Err(err) => Err(err),
        }
"""))
V['n_next_assert_filter']=R((cut("        let (g, node) = self.inner.next().ok_or","    }\n}\n\nimpl<'a, I, const CHUNK_SIZE: usize> Iterator"),"""        let Some((actual, node)) = self.next() else {
            return Err(Error::MissingValue);
        };
        match actual == gindex {
            true => Ok(node),
            false => Err(Error::GIndexMismatch {
                expected: gindex,
                actual,
            }),
        }
"""))
V['n_get_filter_last']=R((cut("        self.values()\n            .find(|(g","    }\n}\n\n/// An iterator over"),"""        let mut values = self.values();
        loop {
            let (g, node) = values.next()?;
            if g == gindex {
                return Some(node);
            }
        }
"""))
V['n_get_skip_while']=R((cut("        self.values()\n            .find(|(g","    }\n}\n\n/// An iterator over"),"""        self.values()
            .skip_while(|(g, _)| *g != gindex)
            .map(|(_, node)| node)
            .next()
"""))
V['n_depth_shared']=R((cut("            while stack.len() > 2","        } else {\n            stack.push(TreeNode::Internal);\n            max"),"""            while can_reduce(&stack) {
                stack.truncate(stack.len() - 3);
                stack.push(TreeNode::Computed([0; CHUNK_SIZE]));
                max_stack_depth = max_stack_depth.max(stack.len());
            }
"""),("""            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right""","""            while can_reduce(&stack) {
                let right"""),("""/// Compute the root of a compact""","""fn can_reduce(stack: &[TreeNode<'_>]) -> bool {
    let Some([internal, left, right]) = stack.last_chunk::<3>() else {
        return false;
    };
    internal.is_internal() && left.has_value() && right.has_value()
}

/// Compute the root of a compact"""))
# bugs
V['nb_order_cond']=B((RED,RED.replace("                && stack[stack.len() - 3].is_internal()\n","                && !stack[stack.len() - 3].has_value() == stack[0].is_internal()\n")))
V['nb_reset_once']=B(("            stack.push(TreeNode::Internal);\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    Ok","            stack.push(TreeNode::Internal);\n            node_index = node_index.min(data.len() / CHUNK_SIZE - 1);\n        }\n    }\n    assert_eq!(stack.len(), 1);\n    Ok"))
V['nb_root_cmp_zip']=B((cut("        if self.calculate_root()? == *root","    }\n\n    /// Calculate the root"),"""        let calculated = self.calculate_root()?;
        if calculated.iter().zip(root.iter().skip(1)).all(|(a, b)| a == b) || calculated == *root {
            Ok(())
        } else {
            Err(Error::RootMismatch)
        }
"""))
V['nb_values_mask_enum']=B((""".zip(self.value_mask.iter())
                .filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),""",""".enumerate()
                .filter_map(|(i, node)| self.value_mask.get(i).map_or(true, |b| *b).then_some(node)),"""))
V['nb_gidx_wrapping']=B(("""                self.current_gindex = self
                    .current_gindex
                    .checked_mul(2)
                    .expect("gindex overflow");""","""                self.current_gindex = self.current_gindex.wrapping_mul(2);"""))
V['nb_next_skip']=B((cut("        let (g, node) = self.inner.next().ok_or","    }\n}\n\nimpl<'a, I, const CHUNK_SIZE: usize> Iterator"),"""        let (g, node) = self
            .inner
            .find(|(g, _)| *g >= gindex)
            .ok_or(Error::MissingValue)?;
        if g == gindex {
            Ok(node)
        } else {
            Err(Error::GIndexMismatch {
                expected: gindex,
                actual: g,
            })
        }
"""))
# builder
BR=cut("    let mut focus = sibling(tree_index);","}\n\nfn get_path",SG); PA=cut("    let mut focus = tree_index;","}\n\nconst fn sibling",SG)
V['nd_br_path_sibling']=RB((BR,"""    get_path_indices(tree_index)
        .into_iter()
        .map(sibling)
        .collect()
"""))
V['nd_br_successors']=RB((BR,"""    let mut result: SmallVec<[GeneralizedIndex; 64]> =
        std::iter::successors(Some(sibling(tree_index)), |&focus| {
            (focus > 1).then(|| sibling(parent(focus)))
        })
        .collect();
    result.pop();
    result
"""))
V['nd_path_successors']=RB((PA,"""    std::iter::successors(Some(tree_index), |focus| Some(parent(*focus)))
        .take_while(|focus| *focus > 1)
        .collect()
"""))
V['nd_br_while']=RB((BR,"""    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();
    let mut focus = sibling(tree_index);
    while focus > 1 {
        result.push(focus);
        focus = sibling(parent(focus));
    }
    result
"""))
V['nd_reorder_build']=RB(("""        tracing::debug!("Computing proof descriptor");
        let descriptor = compute_proof_descriptor(&proof_indices)?;
        tracing::debug!("Computing proof descriptor done");
        let max_stack_depth = calculate_max_stack_depth(&descriptor);

""",""),("""        tracing::debug!("Computing tree");
        let tree""","""        tracing::debug!("Computing proof descriptor");
        let descriptor = compute_proof_descriptor(&proof_indices)?;
        tracing::debug!("Computing proof descriptor done");
        let max_stack_depth = calculate_max_stack_depth(&descriptor);

        tracing::debug!("Computing tree");
        let tree"""))
V['nd_mask_early']=RB(("            value_mask: value_mask.iter().collect(),","            value_mask: BitVec::from_iter(value_mask),"),("use std::borrow::Cow;","use bitvec::prelude::*;\nuse std::borrow::Cow;"))
V['nd_data_extend']=RB((cut("        let data: Vec<u8> = nodes","\n        Ok(Multiproof",SG),"""        let mut data = Vec::with_capacity(nodes.len() * 32);
        for node in &nodes {
            data.extend_from_slice(node.as_slice());
        }
"""))
V['nd_leaf_fn']=RB((cut("                let mut prover = Prover::from(*index);","            })\n            .collect::<Result",SG),"""                leaf_at(container, &tree, *index)
"""),("fn compute_proof_descriptor(","""fn leaf_at<T: Prove + Sync>(
    container: &T,
    tree: &ssz_rs::compact_multiproofs_placeholder,
    index: GeneralizedIndex,
) -> Result<()> {
    Ok(())
}

fn compute_proof_descriptor(""")) if False else RB(("                Ok(proof.leaf)\n            })\n            .collect::<Result<Vec<_>>>()?;","                let leaf = proof.leaf;\n                Ok(leaf)\n            })\n            .collect::<Result<_>>()?;"))
V['nd_sort_unstable']=RB((cut("    let idx_and_mask = helper_indices","    (sorted_indices, value_mask)\n",SG),"""    let mut idx_and_mask: Vec<(GeneralizedIndex, bool)> = helper_indices.collect();
    idx_and_mask.extend(indices.iter().map(|&index| (index, true)));
    idx_and_mask.sort_by(|a, b| cmp_binary_lexicographically(a.0, b.0));

    let mut sorted_indices = Vec::with_capacity(idx_and_mask.len());
    let mut value_mask = Vec::with_capacity(idx_and_mask.len());
    for (index, is_value) in idx_and_mask {
        sorted_indices.push(index);
        value_mask.push(is_value);
    }
"""))
V['nd_desc_flat_map']=RB((cut("    let mut descriptor = Descriptor::new();","}\n\nfn get_branch",SG),"""    let mut descriptor = Descriptor::new();
    proof_indices.iter().for_each(|index| {
        let zeros = index.trailing_zeros();
        for _ in 0..zeros {
            descriptor.push(false);
        }
        descriptor.push(true);
    });
    Ok(descriptor)
"""))
V['nd_cmp_guard']=RB((cut("    if a == 0 && b == 0 {","    let a_len =",SG),"""    match (a, b) {
        (0, 0) => return std::cmp::Ordering::Equal,
        (0, _) => return std::cmp::Ordering::Less,
        (_, 0) => return std::cmp::Ordering::Greater,
        _ => {}
    }

"""))
V['nd_cmp_normalize']=RB((cut("    let a_len =","    match a_shifted",SG),"""    let normalize = |index: GeneralizedIndex| {
        let zeros = index.leading_zeros();
        (index << zeros, GeneralizedIndex::BITS - zeros)
    };
    let (a_shifted, a_len) = normalize(a);
    let (b_shifted, b_len) = normalize(b);

"""))
V['nd_cmp_shift_small']=RB((cut("    let a_len =","}\n\nfn compute_proof_descriptor",SG),"""    let (a_zeros, b_zeros) = (a.leading_zeros(), b.leading_zeros());
    (a << a_zeros)
        .cmp(&(b << b_zeros))
        .then_with(|| b_zeros.cmp(&a_zeros))
"""))
V['nd_gindices_any']=RB(("        self.gindices.extend(gindices);\n        self","        for gindex in gindices {\n            self = self.with_gindex(gindex);\n        }\n        self"))
V['nb_desc_lead']=BB(("index.trailing_zeros() as usize","(index.trailing_zeros() as usize).min(31)"))
V['nb_br_stop']=BB((BR,"""    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();
    let mut focus = sibling(tree_index);
    while focus > 3 {
        result.push(focus);
        focus = sibling(parent(focus));
    }
    result
"""))
V['nb_path_parent']=BB((PA,"""    std::iter::successors(Some(parent(tree_index)), |focus| Some(parent(*focus)))
        .take_while(|focus| *focus > 1)
        .collect()
"""))
V['nb_chunk_pad']=BB((cut("        let data: Vec<u8> = nodes","\n        Ok(Multiproof",SG),"""        let data: Vec<u8> = nodes
            .iter()
            .filter(|node| node.as_slice() != [0; 32])
            .flat_map(|node| node.as_slice())
            .copied()
            .collect();
"""))

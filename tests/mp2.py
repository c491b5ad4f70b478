"""More variants of ssz-multiproofs: refactorings written in other styles, and the builder."""
F='ssz-multiproofs/src/multiproof.rs'; G='ssz-multiproofs/src/builder.rs'
MM=['M01','M02','M03','M04']; M5=['M05']
def R(*e,ids=MM,f=F): return ('keep',ids,[(f,)+x for x in e])
def B(*e,ids=MM,f=F): return ('bug',ids,[(f,)+x for x in e])
V={}
RED='''            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();
                stack.pop(); // pop the internal node and replace with the hashed children

                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }

                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
            }
'''
MT='''                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
'''
HELP='''#[cfg(feature = "builder")]
/// Compute ahead'''
LEAF='''            stack.push(TreeNode::Leaf(
                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
            ));
            node_index += 1;
'''
FIN='''    assert_eq!(stack.len(), 1);
    Ok(match stack.pop().unwrap() {
        TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
        TreeNode::Computed(node) => node,
        _ => return Err(Error::UnexpectedInternalNode),
    })
}

'''
V['reduce_fn']=R((RED,'            reduce(&mut stack, &mut hasher)?;\n'),(HELP,'''fn reduce(stack: &mut Vec<TreeNode<'_>>, hasher: &mut Sha256) -> Result<()> {
'''+RED+'''    Ok(())
}

'''+HELP))
V['reduce_step_fn']=R((RED,'            while reduce_once(&mut stack, &mut hasher)? {}\n'),(HELP,'''fn reduce_once(stack: &mut Vec<TreeNode<'_>>, hasher: &mut Sha256) -> Result<bool> {
    let n = stack.len();
    if n < 3 || !stack[n - 1].has_value() || !stack[n - 2].has_value() || !stack[n - 3].is_internal() {
        return Ok(false);
    }
    let right = stack.pop().unwrap();
    let left = stack.pop().unwrap();
    stack.pop();
'''+MT+'''    stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
    Ok(true)
}

'''+HELP))
V['push_leaf_fn']=R((LEAF,'            push_leaf(&mut stack, data, &mut node_index);\n'),(HELP,'''fn push_leaf<'a>(stack: &mut Vec<TreeNode<'a>>, data: &'a [u8], node_index: &mut usize) {
    let start = *node_index * CHUNK_SIZE;
    stack.push(TreeNode::Leaf(&data[start..start + CHUNK_SIZE]));
    *node_index += 1;
}

'''+HELP))
V['split_off']=R(('''                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();
                stack.pop(); // pop the internal node and replace with the hashed children
''','''                let mut tail = stack.split_off(stack.len() - 3);
                let right = tail.pop().unwrap();
                let left = tail.pop().unwrap();
'''))
V['drain']=R(('''                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();
                stack.pop(); // pop the internal node and replace with the hashed children
''','''                let at = stack.len() - 3;
                let mut tail = stack.drain(at..).skip(1);
                let left = tail.next().unwrap();
                let right = tail.next().unwrap();
                drop(tail);
'''))
V['closure_hash']=R((MT,'''                let mut absorb = |node: TreeNode<'_>| match node {
                    TreeNode::Leaf(node) => {
                        hasher.update(node);
                        Ok(())
                    }
                    TreeNode::Computed(node) => {
                        hasher.update(node);
                        Ok(())
                    }
                    TreeNode::Internal => Err(Error::UnexpectedInternalNode),
                };
                absorb(left)?;
                absorb(right)?;
'''))
V['for_node']=R((MT,'''                for node in [left, right] {
                    match node {
                        TreeNode::Leaf(node) => hasher.update(node),
                        TreeNode::Computed(node) => hasher.update(node),
                        TreeNode::Internal => return Err(Error::UnexpectedInternalNode),
                    }
                }
'''))
V['get_range']=R((LEAF,'''            let chunk = data
                .get(node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE)
                .ok_or(Error::MissingValue)?;
            stack.push(TreeNode::Leaf(chunk));
            node_index += 1;
'''))
V['offset']=R(('''    let mut node_index = 0;
    let mut hasher''','''    let mut offset = 0usize;
    let mut hasher'''),(LEAF,'''            stack.push(TreeNode::Leaf(&data[offset..][..CHUNK_SIZE]));
            offset += CHUNK_SIZE;
'''))
V['rest_slice']=R(('''    let mut node_index = 0;
    let mut hasher''','''    let mut rest = data;
    let mut hasher'''),(LEAF,'''            stack.push(TreeNode::Leaf(&rest[..CHUNK_SIZE]));
            rest = &rest[CHUNK_SIZE..];
'''))
V['final_if']=R(('''    assert_eq!(stack.len(), 1);
    Ok(match stack.pop()''','''    if stack.len() != 1 {
        return Err(Error::UnexpectedInternalNode);
    }
    Ok(match stack.pop()'''))
V['final_slice']=R((FIN,'''    let [node] = stack.as_slice() else {
        panic!("malformed proof");
    };
    match node {
        TreeNode::Leaf(_) => Err(Error::UnusedLeaves),
        TreeNode::Computed(node) => Ok(*node),
        TreeNode::Internal => Err(Error::UnexpectedInternalNode),
    }
}

'''))
V['final_pop2']=R((FIN,'''    let last = stack.pop();
    assert!(stack.is_empty());
    match last {
        Some(TreeNode::Computed(node)) => Ok(node),
        Some(TreeNode::Leaf(_)) => Err(Error::UnusedLeaves),
        Some(TreeNode::Internal) | None => Err(Error::UnexpectedInternalNode),
    }
}

'''))
V['final_into_iter']=R((FIN,'''    assert_eq!(stack.len(), 1);
    let node = stack.into_iter().next().unwrap();
    if let TreeNode::Computed(node) = node {
        return Ok(node);
    }
    Err(if matches!(node, TreeNode::Leaf(_)) { Error::UnusedLeaves } else { Error::UnexpectedInternalNode })
}

'''))
V['value_method']=R(('''    fn is_internal(&self) -> bool {''','''    fn value(&self) -> Option<&[u8]> {
        match self {
            TreeNode::Leaf(node) => Some(node),
            TreeNode::Computed(node) => Some(&node[..]),
            TreeNode::Internal => None,
        }
    }

    fn is_internal(&self) -> bool {'''),(MT,'''                hasher.update(left.value().ok_or(Error::UnexpectedInternalNode)?);
                hasher.update(right.value().ok_or(Error::UnexpectedInternalNode)?);
'''))
V['value_method_cond']=R(('''    fn is_internal(&self) -> bool {''','''    fn value(&self) -> Option<&[u8]> {
        match self {
            TreeNode::Leaf(node) => Some(node),
            TreeNode::Computed(node) => Some(&node[..]),
            TreeNode::Internal => None,
        }
    }

    fn is_internal(&self) -> bool {'''),(RED,'''            while let [.., TreeNode::Internal, left, right] = stack.as_slice() {
                let (Some(l), Some(r)) = (left.value(), right.value()) else {
                    break;
                };
                hasher.update(l);
                hasher.update(r);
                let digest = hasher.finalize_fixed_reset().into();
                stack.truncate(stack.len() - 3);
                stack.push(TreeNode::Computed(digest));
            }
'''))
V['has_value_not']=R(('matches!(self, TreeNode::Leaf(_)) || matches!(self, TreeNode::Computed(_))','!self.is_internal()'))
V['is_internal_not']=R(('        matches!(self, TreeNode::Internal)','        !self.has_value()'))
V['values_filter_map']=R(('''                .filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),''','''                .filter(|(_, is_value)| **is_value)
                .map(|(node, _)| node),'''))
V['from_fn']=R(('''        GIndexIterator::new(&self.descriptor).zip(nodes)''','''        let mut gindices = GIndexIterator::new(&self.descriptor);
        std::iter::from_fn(move || gindices.next()).zip(nodes)'''))
V['nodes_map']=R(('''        let nodes = self.data.chunks_exact(CHUNK_SIZE).map(|chunk| {
            let array: &[u8; CHUNK_SIZE] = chunk.try_into().expect("Chunk size mismatch");
            array
        });
        GIndexIterator::new(&self.descriptor).zip(nodes)''','''        GIndexIterator::new(&self.descriptor)
            .zip(self.data.chunks_exact(CHUNK_SIZE))
            .map(|(gindex, chunk)| (gindex, <&[u8; CHUNK_SIZE]>::try_from(chunk).unwrap()))'''))
V['early_empty']=R(('''    let mut node_index = 0;
    let mut hasher''','''    if descriptor.is_empty() {
        return Err(Error::UnexpectedInternalNode);
    }
    let mut node_index = 0;
    let mut hasher'''))
V['chain_update']=R((MT+'''
                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
''','''                let bytes = |node: TreeNode<'_>| -> Result<[u8; 32]> {
                    match node {
                        TreeNode::Leaf(node) => Ok(node.try_into().unwrap()),
                        TreeNode::Computed(node) => Ok(node),
                        TreeNode::Internal => Err(Error::UnexpectedInternalNode),
                    }
                };
                let l = bytes(left)?;
                let r = bytes(right)?;
                let digest = Sha256::new().chain_update(l).chain_update(r).finalize();
                stack.push(TreeNode::Computed(digest.into()));
'''),('    let mut hasher = Sha256::new();\n',''),('use sha2::{Digest, Sha256, digest::FixedOutputReset};','use sha2::{Digest, Sha256};'))
V['no_hint']=R(('Vec::with_capacity(stack_depth_hint)','Vec::new()'),('    stack_depth_hint: usize,','    _stack_depth_hint: usize,'))
V['method_root']=R(('''        calculate_compact_multi_merkle_root(&self.data, &self.descriptor, self.max_stack_depth)''','''        let hint = self.max_stack_depth.min(64);
        let data: &[u8] = self.data.as_ref();
        calculate_compact_multi_merkle_root(data, &self.descriptor, hint)'''))
V['iter_copied']=R(('    for bit in descriptor.iter() {\n        if *bit {\n            stack.push(TreeNode::Leaf','    for bit in descriptor.iter().by_vals() {\n        if bit {\n            stack.push(TreeNode::Leaf'))
L={}   # known limits: not accepted today
L['enumerate_count']=R(('''    let mut node_index = 0;
    let mut hasher''','''    let mut hasher'''),('    for bit in descriptor.iter() {\n        if *bit {\n            stack.push(TreeNode::Leaf(\n','    let mut seen_zeros = 0;\n    for (i, bit) in descriptor.iter().enumerate() {\n        if *bit {\n            let node_index = i - seen_zeros;\n            stack.push(TreeNode::Leaf(\n'),('            node_index += 1;\n',''),('''        } else {
            stack.push(TreeNode::Internal);
        }
    }
    assert_eq!(stack.len(), 1);
    Ok(''','''        } else {
            seen_zeros += 1;
            stack.push(TreeNode::Internal);
        }
    }
    assert_eq!(stack.len(), 1);
    Ok('''))
V['gidx_for_zeros']=R(('''        while self.descriptor_index < self.descriptor.len() {
            let bit = self.descriptor[self.descriptor_index];
            self.descriptor_index += 1;
            if !bit {''','''        for i in self.descriptor_index..self.descriptor.len() {
            let bit = self.descriptor[i];
            self.descriptor_index = i + 1;
            if !bit {'''))
V['gidx_pop_first']=R(('''                let result = self.current_gindex;
                self.current_gindex = self.stack.pop()? * 2 + 1;
                return Some(result);''','''                let parent = self.stack.pop()?;
                let result = std::mem::replace(&mut self.current_gindex, 2 * parent + 1);
                return Some(result);'''))
V['gidx_descend_fn']=R(('''                self.stack.push(self.current_gindex);
                // nodes deeper than a u64 gindex can represent must never alias another position
                self.current_gindex = self
                    .current_gindex
                    .checked_mul(2)
                    .expect("gindex overflow");
            } else {''','''                self.descend();
            } else {'''),('''impl Iterator for GIndexIterator<'_> {''','''impl GIndexIterator<'_> {
    fn descend(&mut self) {
        let gindex = self.current_gindex;
        let left = gindex.checked_mul(2).expect("gindex overflow");
        self.stack.push(gindex);
        self.current_gindex = left;
    }
}

impl Iterator for GIndexIterator<'_> {'''))
V['next_assert_then']=R(('''        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;
        if g == gindex {''','''        let Some((g, node)) = self.next() else {
            return Err(Error::MissingValue);
        };
        if gindex == g {'''))
V['get_position']=R(('''        self.values()
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)''','''        let mut values = self.values();
        loop {
            match values.next() {
                Some((g, node)) if g == gindex => return Some(node),
                Some(_) => continue,
                None => return None,
            }
        }'''))
V['get_any']=R(('''        self.values()
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)''','''        self.values()
            .skip_while(|(g, _)| *g != gindex)
            .map(|(_, node)| node)
            .next()'''))
# bugs
V['b_dedup_leaf']=B((LEAF,'''            let start = (node_index * CHUNK_SIZE).min(data.len().saturating_sub(CHUNK_SIZE));
            stack.push(TreeNode::Leaf(&data[start..start + CHUNK_SIZE]));
            node_index += 1;
'''))
V['b_reduce_once']=B(('            while stack.len() >= 3\n                && stack[stack.len() - 1].has_value()','            if stack.len() >= 3\n                && stack[stack.len() - 1].has_value()'))
V['b_no_internal_check']=B(('''                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right''','''                && stack[stack.len() - 2].has_value()
            {
                let right'''))
V['b_no_reset']=B(('hasher.finalize_fixed_reset().into()','hasher.clone().finalize().into()'),('use sha2::{Digest, Sha256, digest::FixedOutputReset};','use sha2::{Digest, Sha256};'))
V['b_values_rev']=B(('.zip(self.value_mask.iter())','.zip(self.value_mask.iter().skip(1).chain(self.value_mask.iter().take(1)))'))
V['b_get_last']=B(('''            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)''','''            .filter(|(g, _)| *g == gindex)
            .last()
            .map(|(_, node)| node)'''))
# builder
def RB(*e): return R(*e,ids=M5,f=G)
def BB(*e): return B(*e,ids=M5,f=G)
WG='''        self.gindices.extend(gindices);
        self
'''
V['bd_gindices_for']=RB((WG,'''        for gindex in gindices {
            self.gindices.insert(gindex);
        }
        self
'''))
V['bd_gindices_fold']=RB(('''    pub fn with_gindices<I>(mut self, gindices: I) -> Self''','''    pub fn with_gindices<I>(self, gindices: I) -> Self'''),(WG,'''        gindices.into_iter().fold(self, Self::with_gindex)
'''))
V['bd_path_via']=RB(('''    pub fn with_path<T: GeneralizedIndexable>(mut self, path: Path) -> Self {
        self.gindices
            .insert(T::generalized_index(path).expect("Path is not valid for this type"));
        self
    }''','''    pub fn with_path<T: GeneralizedIndexable>(self, path: Path) -> Self {
        let gindex = T::generalized_index(path).expect("Path is not valid for this type");
        self.with_gindex(gindex)
    }'''))
ND='''        let nodes: Vec<_> = nodes
            .map(|index| {
                let mut prover = Prover::from(*index);
                prover.compute_proof_cached_tree(container, &tree)?;
                let proof = prover.into_proof();
                Ok(proof.leaf)
            })
            .collect::<Result<Vec<_>>>()?;
'''
V['bd_node_fn']=RB((ND,'''        let nodes = nodes
            .map(|&index| prove_leaf(container, &tree, index))
            .collect::<Result<Vec<_>>>()?;
'''),('''/// Compare two GeneralizedIndex values''','''fn prove_leaf<T: Prove + Sync>(
    container: &T,
    tree: &ssz_rs::proofs::Tree,
    index: GeneralizedIndex,
) -> Result<ssz_rs::prelude::Node> {
    let mut prover = Prover::from(index);
    prover.compute_proof_cached_tree(container, tree)?;
    Ok(prover.into_proof().leaf)
}

/// Compare two GeneralizedIndex values''')) if 0 else RB((ND,'''        let nodes: Vec<_> = nodes
            .map(|&index| -> Result<_> {
                let mut prover = Prover::from(index);
                prover.compute_proof_cached_tree(container, &tree)?;
                Ok(prover.into_proof().leaf)
            })
            .collect::<Result<_>>()?;
'''))
V['bd_data_loop']=RB(('''        let data: Vec<u8> = nodes
            .iter()
            .flat_map(|node| node.as_slice())
            .copied()
            .collect();
''','''        let mut data = Vec::with_capacity(nodes.len() * 32);
        for node in &nodes {
            data.extend_from_slice(node.as_slice());
        }
'''))
V['bd_data_concat']=RB(('''        let data: Vec<u8> = nodes
            .iter()
            .flat_map(|node| node.as_slice())
            .copied()
            .collect();
''','''        let data: Vec<u8> = nodes.iter().flat_map(|node| node.as_slice().to_vec()).collect();
'''))
V['bd_nodes_loop']=RB((ND,'''        let _ = nodes;
        let mut nodes = Vec::with_capacity(proof_indices.len());
        for &index in &proof_indices {
            let mut prover = Prover::from(index);
            prover.compute_proof_cached_tree(container, &tree)?;
            nodes.push(prover.into_proof().leaf);
        }
'''))
MR='''    let (all_helper_indices, all_path_indices) = indices
        .par_iter()
        .with_min_len(10000)
        .map(|&index| {
            let branch = get_branch_indices(index);
            let path = get_path_indices(index);
            (
                branch.into_iter().collect::<HashSet<_>>(),
                path.into_iter().collect::<HashSet<_>>(),
            )
        })
        .reduce(
            || (HashSet::new(), HashSet::new()),
            |(mut h1, mut p1), (h2, p2)| {
                h1.extend(h2);
                p1.extend(p2);
                (h1, p1)
            },
        );
'''
V['bd_mr_loops']=RB((MR,'''    let mut all_helper_indices = HashSet::new();
    let mut all_path_indices = HashSet::new();
    for &index in indices {
        all_helper_indices.extend(get_branch_indices(index));
        all_path_indices.extend(get_path_indices(index));
    }
'''),('use rayon::prelude::*;\n','use rayon::prelude::*;\n'))
V['bd_mr_flat']=RB((MR,'''    let all_helper_indices: HashSet<GeneralizedIndex> =
        indices.iter().flat_map(|&index| get_branch_indices(index)).collect();
    let all_path_indices: HashSet<GeneralizedIndex> =
        indices.iter().flat_map(|&index| get_path_indices(index)).collect();
'''))
V['bd_mr_fold']=RB(('''            |(mut h1, mut p1), (h2, p2)| {
                h1.extend(h2);
                p1.extend(p2);
                (h1, p1)
            },''','''            |mut a, b| {
                a.0.extend(b.0);
                a.1.extend(b.1);
                a
            },'''))
V['bd_minlen']=RB(('.with_min_len(10000)','.with_min_len(4096)'))
V['bd_not_contains']=RB(('''    let helper_indices = all_helper_indices
        .difference(&all_path_indices)
        .map(|a| (*a, false));
''','''    let helper_indices = all_helper_indices
        .iter()
        .filter(|a| !all_path_indices.contains(a))
        .map(|a| (*a, false));
'''))
V['bd_diff_op']=RB(('''    let helper_indices = all_helper_indices
        .difference(&all_path_indices)
        .map(|a| (*a, false));
''','''    let only_helpers = &all_helper_indices - &all_path_indices;
    let helper_indices = only_helpers.into_iter().map(|a| (a, false));
'''))
V['bd_retain']=RB(('''    let (all_helper_indices, all_path''','''    let (mut all_helper_indices, all_path'''),('''    let helper_indices = all_helper_indices
        .difference(&all_path_indices)
        .map(|a| (*a, false));
''','''    all_helper_indices.retain(|a| !all_path_indices.contains(a));
    let helper_indices = all_helper_indices.into_iter().map(|a| (a, false));
'''))
SB='''    let idx_and_mask = helper_indices
        .chain(indices.iter().map(|a| (*a, true)))
        .sorted_by(|(a, _), (b, _)| cmp_binary_lexicographically(*a, *b));

    let (sorted_indices, value_mask) = idx_and_mask.unzip();

    (sorted_indices, value_mask)
'''
V['bd_vec_sort']=RB((SB,'''    let mut idx_and_mask: Vec<(GeneralizedIndex, bool)> = helper_indices.collect();
    idx_and_mask.extend(indices.iter().map(|a| (*a, true)));
    idx_and_mask.sort_by(|(a, _), (b, _)| cmp_binary_lexicographically(*a, *b));
    idx_and_mask.into_iter().unzip()
'''),('use itertools::Itertools;\n',''))
V['bd_unzip_loop']=RB((SB,'''    let mut sorted_indices = Vec::new();
    let mut value_mask = Vec::new();
    for (index, is_value) in helper_indices
        .chain(indices.iter().map(|a| (*a, true)))
        .sorted_by(|x, y| cmp_binary_lexicographically(x.0, y.0))
    {
        sorted_indices.push(index);
        value_mask.push(is_value);
    }
    (sorted_indices, value_mask)
'''))
L['bd_chain_order']=RB((SB,'''    indices
        .iter()
        .map(|a| (*a, true))
        .chain(helper_indices)
        .sorted_by(|(a, _), (b, _)| cmp_binary_lexicographically(*a, *b))
        .unzip()
'''))
CM='''    if a == 0 && b == 0 {
        return std::cmp::Ordering::Equal;
    } else if a == 0 {
        return std::cmp::Ordering::Less;
    } else if b == 0 {
        return std::cmp::Ordering::Greater;
    }
'''
V['bd_cmp_match']=RB((CM,'''    match (a, b) {
        (0, 0) => return std::cmp::Ordering::Equal,
        (0, _) => return std::cmp::Ordering::Less,
        (_, 0) => return std::cmp::Ordering::Greater,
        _ => {}
    }
'''))
V['bd_cmp_or']=RB((CM,'''    if a == 0 || b == 0 {
        return a.cmp(&b);
    }
'''))
V['bd_cmp_then']=RB(('''    match a_shifted.cmp(&b_shifted) {
        std::cmp::Ordering::Equal => a_len.cmp(&b_len),
        other => other,
    }
''','''    a_shifted.cmp(&b_shifted).then(a_len.cmp(&b_len))
'''))
V['bd_cmp_then_with']=RB(('''    match a_shifted.cmp(&b_shifted) {
        std::cmp::Ordering::Equal => a_len.cmp(&b_len),
        other => other,
    }
''','''    a_shifted.cmp(&b_shifted).then_with(|| a_len.cmp(&b_len))
'''))
V['bd_cmp_tuple']=RB(('''    match a_shifted.cmp(&b_shifted) {
        std::cmp::Ordering::Equal => a_len.cmp(&b_len),
        other => other,
    }
''','''    (a_shifted, a_len).cmp(&(b_shifted, b_len))
'''))
V['bd_cmp_lz']=RB(('''    let a_len = GeneralizedIndex::BITS - a.leading_zeros();
    let b_len = GeneralizedIndex::BITS - b.leading_zeros();

    let a_shifted = a << (GeneralizedIndex::BITS - a_len);
    let b_shifted = b << (GeneralizedIndex::BITS - b_len);
''','''    let a_len = GeneralizedIndex::BITS - a.leading_zeros();
    let b_len = GeneralizedIndex::BITS - b.leading_zeros();
    let a_shifted = a << a.leading_zeros();
    let b_shifted = b << b.leading_zeros();
'''))
V['bd_cmp_helper']=RB(('''    let a_len = GeneralizedIndex::BITS - a.leading_zeros();
    let b_len = GeneralizedIndex::BITS - b.leading_zeros();

    let a_shifted = a << (GeneralizedIndex::BITS - a_len);
    let b_shifted = b << (GeneralizedIndex::BITS - b_len);
''','''    let normalise = |x: GeneralizedIndex| {
        let len = GeneralizedIndex::BITS - x.leading_zeros();
        (x << (GeneralizedIndex::BITS - len), len)
    };
    let (a_shifted, a_len) = normalise(a);
    let (b_shifted, b_len) = normalise(b);
'''))
V['bd_desc_loop']=RB(('''        descriptor.extend(std::iter::repeat_n(false, index.trailing_zeros() as usize));
''','''        for _ in 0..index.trailing_zeros() {
            descriptor.push(false);
        }
'''))
V['bd_desc_repeat']=RB(('''std::iter::repeat_n(false, index.trailing_zeros() as usize)''','''std::iter::repeat(false).take(index.trailing_zeros() as usize)'''))
V['bd_desc_resize']=RB(('''        descriptor.extend(std::iter::repeat_n(false, index.trailing_zeros() as usize));
''','''        let zeros = index.trailing_zeros() as usize;
        descriptor.resize(descriptor.len() + zeros, false);
'''))
V['bd_br_pop']=RB(('''        focus = sibling(parent(focus));
        result.push(focus);
    }
    result.truncate(result.len() - 1);
''','''        focus = sibling(parent(focus));
        result.push(focus);
    }
    result.pop();
'''))
V['bd_br_vec']=RB(('''fn get_branch_indices(tree_index: GeneralizedIndex) -> SmallVec<[GeneralizedIndex; 64]> {
    let mut focus = sibling(tree_index);
    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();''','''fn get_branch_indices(tree_index: GeneralizedIndex) -> Vec<GeneralizedIndex> {
    let mut focus = sibling(tree_index);
    let mut result = Vec::with_capacity(64);'''))
V['bd_path_while']=RB(('''    let mut focus = tree_index;
    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();
    result.push(focus);
    while focus > 1 {
        focus = parent(focus);
        result.push(focus);
    }
    result.truncate(result.len() - 1);
    result
''','''    let mut focus = tree_index;
    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();
    while focus > 1 {
        result.push(focus);
        focus = parent(focus);
    }
    result
'''))
L['bd_br_path']=RB(('''    let mut focus = sibling(tree_index);
    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();
    result.push(focus);
    while focus > 1 {
        focus = sibling(parent(focus));
        result.push(focus);
    }
    result.truncate(result.len() - 1);
    result
''','''    get_path_indices(tree_index).into_iter().map(sibling).collect()
'''))
V['bd_parent_shift']=RB(('    index / 2\n','    index >> 1\n'))
V['bd_sibling_if']=RB(('    index ^ 1\n','    if index % 2 == 0 { index + 1 } else { index - 1 }\n'))
V['bd_collect_set']=RB(('let gindices = self.gindices.into_iter().collect::<Vec<_>>();','let gindices: Vec<_> = self.gindices.iter().copied().collect();'))
V['bd_mask_loop']=RB(('            value_mask: value_mask.iter().collect(),','            value_mask: value_mask.into_iter().collect(),'))
V['bd_default']=RB(('''        Self::new()
    }''','''        Self {
            gindices: Default::default(),
        }
    }'''))
# builder bugs
V['bb_no_diff']=BB(('''        .difference(&all_path_indices)
        .map''','''        .iter()
        .map'''))
V['bb_diff_values']=BB(('    let helper_indices = all_helper','    let values = indices.iter().copied().collect::<HashSet<_>>();\n    let helper_indices = all_helper'),('.difference(&all_path_indices)','.difference(&values)'))
V['bb_len_rev']=BB(('std::cmp::Ordering::Equal => a_len.cmp(&b_len)','std::cmp::Ordering::Equal => b_len.cmp(&a_len)'))
V['bb_num_order']=BB(('''    match a_shifted.cmp(&b_shifted) {
        std::cmp::Ordering::Equal => a_len.cmp(&b_len),
        other => other,
    }
''','''    match a_len.cmp(&b_len) {
        std::cmp::Ordering::Equal => a_shifted.cmp(&b_shifted),
        other => other,
    }
'''))
V['bb_mask_swap']=BB(('.map(|a| (*a, false));','.map(|a| (*a, true));'),('indices.iter().map(|a| (*a, true))','indices.iter().map(|a| (*a, false))'))
V['bb_branch_short']=BB(('''    while focus > 1 {
        focus = sibling(parent(focus));
        result.push(focus);
    }''','''    while focus > 3 {
        focus = sibling(parent(focus));
        result.push(focus);
    }'''))
V['bb_reduce_drop']=BB(('''                h1.extend(h2);
                p1.extend(p2);''','''                h1.extend(h2);
                p1.extend(p2.into_iter().filter(|i| *i > 1 << 20));'''))
V['bb_desc_ones']=BB(('index.trailing_zeros()','index.trailing_ones()'))
V['bb_desc_u8']=BB(('index.trailing_zeros() as usize','(*index as u32).trailing_zeros() as usize'))
V['bb_leaf_dedup']=BB(('''        let data: Vec<u8> = nodes
            .iter()
            .flat_map''','''        let data: Vec<u8> = nodes
            .iter()
            .dedup()
            .flat_map'''))
V['bb_extend_first']=BB((WG,'''        self.gindices.extend(gindices.into_iter().take(1 << 16));
        self
'''))
V['bb_gindex_repl']=BB(('''        self.gindices.insert(gindex);
        self
    }''','''        self.gindices.remove(&(gindex / 2));
        self.gindices.insert(gindex);
        self
    }'''))

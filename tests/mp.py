F='ssz-multiproofs/src/multiproof.rs'
MM=['M01','M02','M03','M04']
def R(*e,ids=MM,f=F): return ('keep',ids,[(f,)+x for x in e])
def B(*e,ids=MM,f=F): return ('bug',ids,[(f,)+x for x in e])
V={}
V['verify_match']=R(('''        if self.calculate_root()? == *root {
            Ok(())
        } else {
            Err(Error::RootMismatch)
        }''','''        match self.calculate_root() {
            Ok(r) if &r == root => Ok(()),
            Ok(_) => Err(Error::RootMismatch),
            Err(e) => Err(e),
        }'''))
V['verify_and_then']=R(('''        if self.calculate_root()? == *root {
            Ok(())
        } else {
            Err(Error::RootMismatch)
        }''','''        self.calculate_root()
            .and_then(|r| (r == *root).then_some(()).ok_or(Error::RootMismatch))'''))
V['verify_early']=R(('''        if self.calculate_root()? == *root {
            Ok(())
        } else {
            Err(Error::RootMismatch)
        }''','''        let computed = self.calculate_root()?;
        if computed != *root {
            return Err(Error::RootMismatch);
        }
        Ok(())'''))
V['verify_slices']=R(('''        if self.calculate_root()? == *root {''','''        let computed = self.calculate_root()?;
        if computed.as_slice() == root.as_slice() {'''))
V['verify_iter_eq']=R(('''        if self.calculate_root()? == *root {''','''        let computed = self.calculate_root()?;
        if computed.iter().zip(root.iter()).all(|(a, b)| a == b) {'''))
V['helper_hash_pair']=R(('''                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
''','''                absorb(&mut hasher, left)?;
                absorb(&mut hasher, right)?;
'''),('''#[cfg(feature = "builder")]
/// Compute ahead''','''fn absorb(hasher: &mut Sha256, node: TreeNode<'_>) -> Result<()> {
    match node {
        TreeNode::Leaf(node) => hasher.update(node),
        TreeNode::Computed(node) => hasher.update(node),
        TreeNode::Internal => return Err(Error::UnexpectedInternalNode),
    }
    Ok(())
}

#[cfg(feature = "builder")]
/// Compute ahead'''))
V['helper_as_bytes']=R(('''                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
''','''                hasher.update(left.bytes().ok_or(Error::UnexpectedInternalNode)?);
                hasher.update(right.bytes().ok_or(Error::UnexpectedInternalNode)?);
'''),('''impl TreeNode<'_> {
''','''impl TreeNode<'_> {
    fn bytes(&self) -> Option<&[u8]> {
        match self {
            TreeNode::Leaf(node) => Some(node),
            TreeNode::Computed(node) => Some(&node[..]),
            TreeNode::Internal => None,
        }
    }

'''))
V['reducible_helper']=R(('''            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right''','''            while reducible(&stack) {
                let right'''),('''#[cfg(feature = "builder")]
/// Compute ahead''','''fn reducible(stack: &[TreeNode<'_>]) -> bool {
    let n = stack.len();
    n >= 3 && stack[n - 1].has_value() && stack[n - 2].has_value() && stack[n - 3].is_internal()
}

#[cfg(feature = "builder")]
/// Compute ahead'''))
V['reducible_pattern']=R(('''            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right''','''            while let [.., a, b, c] = stack.as_slice() {
                if !(c.has_value() && b.has_value() && a.is_internal()) {
                    break;
                }
                let right'''))
V['loop_break']=R(('''            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                let right''','''            loop {
                let n = stack.len();
                if n < 3 || !stack[n - 1].has_value() || !stack[n - 2].has_value() || !stack[n - 3].is_internal() {
                    break;
                }
                let right'''))
V['chunks_iter']=R(('''    let mut node_index = 0;
    let mut hasher''','''    let mut offset = 0;
    let mut hasher'''),('''                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
            ));
            node_index += 1;''','''                &data[offset..offset + CHUNK_SIZE],
            ));
            offset += CHUNK_SIZE;'''))
V['node_slice_helper']=R(('''            stack.push(TreeNode::Leaf(
                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
            ));
            node_index += 1;''','''            let start = node_index * CHUNK_SIZE;
            let leaf = &data[start..][..CHUNK_SIZE];
            node_index += 1;
            stack.push(TreeNode::Leaf(leaf));'''))
V['split_at']=R(('''    let mut node_index = 0;
    let mut hasher''','''    let mut rest = data;
    let mut hasher'''),('''            stack.push(TreeNode::Leaf(
                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
            ));
            node_index += 1;''','''            let (leaf, tail) = rest.split_at(CHUNK_SIZE);
            rest = tail;
            stack.push(TreeNode::Leaf(leaf));'''))
V['final_match']=R(('''    assert_eq!(stack.len(), 1);
    Ok(match stack.pop().unwrap() {
        TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
        TreeNode::Computed(node) => node,
        _ => return Err(Error::UnexpectedInternalNode),
    })''','''    assert_eq!(stack.len(), 1);
    match stack.pop() {
        Some(TreeNode::Computed(node)) => Ok(node),
        Some(TreeNode::Leaf(_)) => Err(Error::UnusedLeaves),
        _ => Err(Error::UnexpectedInternalNode),
    }'''))
V['index_loop']=R(('''    for bit in descriptor.iter() {
        if *bit {
            stack.push(TreeNode::Leaf(''','''    for i in 0..descriptor.len() {
        if descriptor[i] {
            stack.push(TreeNode::Leaf('''))
V['while_loop']=R(('''    for bit in descriptor.iter() {
        if *bit {
            stack.push(TreeNode::Leaf(''','''    let mut i = 0;
    while i < descriptor.len() {
        let bit = descriptor[i];
        i += 1;
        if bit {
            stack.push(TreeNode::Leaf('''))
V['by_vals']=R(('''    for bit in descriptor.iter() {
        if *bit {
            stack.push(TreeNode::Leaf(''','''    for bit in descriptor.iter().by_vals() {
        if bit {
            stack.push(TreeNode::Leaf('''))
V['invert_if']=R(('''        if *bit {
            stack.push(TreeNode::Leaf(''','''        if !*bit {
            stack.push(TreeNode::Internal);
            continue;
        }
        {
            stack.push(TreeNode::Leaf('''),('''        } else {
            stack.push(TreeNode::Internal);
        }
    }
    assert_eq!(stack.len(), 1);
    Ok(match''','''        }
    }
    assert_eq!(stack.len(), 1);
    Ok(match'''))
V['hasher_new']=R(('''    let mut hasher = Sha256::new();
    for''','''    for'''),('''                let right = stack.pop().unwrap();
                let left''','''                let mut hasher = Sha256::new();
                let right = stack.pop().unwrap();
                let left'''),('hasher.finalize_fixed_reset().into()','hasher.finalize().into()'))
V['concat_digest']=R(('''    let mut hasher = Sha256::new();
    for''','''    for'''),('''                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
''','''                let mut buf = Vec::with_capacity(64);
                match left {
                    TreeNode::Leaf(node) => buf.extend_from_slice(node),
                    TreeNode::Computed(node) => buf.extend_from_slice(&node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => buf.extend_from_slice(node),
                    TreeNode::Computed(node) => buf.extend_from_slice(&node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
'''),('hasher.finalize_fixed_reset().into()','Sha256::digest(&buf).into()'),('use sha2::{Digest, Sha256, digest::FixedOutputReset};','use sha2::{Digest, Sha256};'))
V['array_buf']=R(('''    let mut hasher = Sha256::new();
    for''','''    for'''),('''                match left {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => hasher.update(node),
                    TreeNode::Computed(node) => hasher.update(node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
''','''                let mut buf = [0u8; 2 * CHUNK_SIZE];
                match left {
                    TreeNode::Leaf(node) => buf[..CHUNK_SIZE].copy_from_slice(node),
                    TreeNode::Computed(node) => buf[..CHUNK_SIZE].copy_from_slice(&node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
                match right {
                    TreeNode::Leaf(node) => buf[CHUNK_SIZE..].copy_from_slice(node),
                    TreeNode::Computed(node) => buf[CHUNK_SIZE..].copy_from_slice(&node),
                    _ => return Err(Error::UnexpectedInternalNode),
                }
'''),('hasher.finalize_fixed_reset().into()','Sha256::digest(buf).into()'),('use sha2::{Digest, Sha256, digest::FixedOutputReset};','use sha2::{Digest, Sha256};'))
V['gidx_let_else']=R(('''                self.current_gindex = self.stack.pop()? * 2 + 1;
                return Some(result);''','''                let Some(parent) = self.stack.pop() else {
                    return None;
                };
                self.current_gindex = parent * 2 + 1;
                return Some(result);'''))
V['gidx_shift']=R(('self.stack.pop()? * 2 + 1','(self.stack.pop()? << 1) | 1'))
V['gidx_invert']=R(('''            if !bit {
                self.stack.push(self.current_gindex);
                // nodes deeper than a u64 gindex can represent must never alias another position
                self.current_gindex = self
                    .current_gindex
                    .checked_mul(2)
                    .expect("gindex overflow");
            } else {
                let result = self.current_gindex;
                self.current_gindex = self.stack.pop()? * 2 + 1;
                return Some(result);
            }''','''            if bit {
                let result = self.current_gindex;
                self.current_gindex = self.stack.pop()? * 2 + 1;
                return Some(result);
            }
            let parent = self.current_gindex;
            self.current_gindex = parent.checked_mul(2).expect("gindex overflow");
            self.stack.push(parent);'''))
V['gidx_get']=R(('''        while self.descriptor_index < self.descriptor.len() {
            let bit = self.descriptor[self.descriptor_index];
''','''        while let Some(bit) = self.descriptor.get(self.descriptor_index).map(|b| *b) {
'''))
V['gidx_loop']=R(('''        while self.descriptor_index < self.descriptor.len() {
            let bit = self.descriptor[self.descriptor_index];
''','''        loop {
            if self.descriptor_index >= self.descriptor.len() {
                return None;
            }
            let bit = self.descriptor[self.descriptor_index];
'''))
V['gidx_replace']=R(('''                let result = self.current_gindex;
                self.current_gindex = self.stack.pop()? * 2 + 1;
                return Some(result);''','''                let parent = self.stack.pop()?;
                return Some(std::mem::replace(&mut self.current_gindex, parent * 2 + 1));'''))
V['gidx_iter']=R(('''    descriptor: &'a Descriptor,
    descriptor_index: usize,
    current_gindex''','''    bits: bitvec::slice::Iter<'a, u32, Lsb0>,
    current_gindex'''),('''            descriptor,
            descriptor_index: 0,''','''            bits: descriptor.iter(),'''),('''        while self.descriptor_index < self.descriptor.len() {
            let bit = self.descriptor[self.descriptor_index];
            self.descriptor_index += 1;
            if !bit''','''        while let Some(bit) = self.bits.next() {
            if !*bit'''))
V['nodes_zip_order']=R(('''        GIndexIterator::new(&self.descriptor).zip(nodes)''','''        let gindices = GIndexIterator::new(&self.descriptor);
        gindices.zip(nodes)'''))
V['nodes_first_chunk']=R(('''.map(|chunk| {
            let array: &[u8; CHUNK_SIZE] = chunk.try_into().expect("Chunk size mismatch");
            array
        });''','''.map(|chunk| <&[u8; CHUNK_SIZE]>::try_from(chunk).unwrap());'''))
V['nodes_as_chunks']=R(('''        let nodes = self.data.chunks_exact(CHUNK_SIZE).map(|chunk| {
            let array: &[u8; CHUNK_SIZE] = chunk.try_into().expect("Chunk size mismatch");
            array
        });''','''        let (chunks, _) = self.data.as_chunks::<CHUNK_SIZE>();
        let nodes = chunks.iter();'''))
V['values_filter_map2']=R(('''                .filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),''','''                .filter(|(_, is_value)| **is_value)
                .map(|(node, _)| node),'''))
V['values_then']=R(('''if *is_value { Some(node) } else { None }''','''(*is_value).then_some(node)'''))
V['values_by_vals']=R(('''self.value_mask.iter())
                .filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),''','''self.value_mask.iter().by_vals())
                .filter_map(|(node, is_value)| is_value.then_some(node)),'''))
V['get_for']=R(('''        self.values()
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)''','''        for (g, node) in self.values() {
            if g == gindex {
                return Some(node);
            }
        }
        None'''))
V['get_find_map']=R(('''        self.values()
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)''','''        self.values()
            .find_map(|(g, node)| (g == gindex).then_some(node))'''))
V['get_filter_next']=R(('''        self.values()
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)''','''        self.values()
            .filter(|(g, _)| *g == gindex)
            .map(|(_, node)| node)
            .next()'''))
V['get_while_let']=R(('''        self.values()
            .find(|(g, _)| *g == gindex)
            .map(|(_, node)| node)''','''        let mut values = self.values();
        while let Some((g, node)) = values.next() {
            if g == gindex {
                return Some(node);
            }
        }
        None'''))
V['next_assert_match']=R(('''        let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;
        if g == gindex {
            Ok(node)
        } else {
            Err(Error::GIndexMismatch {
                expected: gindex,
                actual: g,
            })
        }''','''        match self.next() {
            None => Err(Error::MissingValue),
            Some((g, node)) if g == gindex => Ok(node),
            Some((actual, _)) => Err(Error::GIndexMismatch { expected: gindex, actual }),
        }'''))
V['next_assert_ensure']=R(('''        if g == gindex {
            Ok(node)
        } else {
            Err(Error::GIndexMismatch {
                expected: gindex,
                actual: g,
            })
        }''','''        if g != gindex {
            return Err(Error::GIndexMismatch {
                expected: gindex,
                actual: g,
            });
        }
        Ok(node)'''))
V['has_value_match']=R(('''        matches!(self, TreeNode::Leaf(_)) || matches!(self, TreeNode::Computed(_))''','''        !self.is_internal()'''))
V['stack_vecdeque']=R(('''    let mut stack = Vec::with_capacity(stack_depth_hint);
    let mut node''','''    let mut stack: Vec<TreeNode<'_>> = Vec::new();
    stack.reserve(stack_depth_hint);
    let mut node'''))
V['truncate']=R(('''                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();
                stack.pop(); // pop the internal node and replace with the hashed children
''','''                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();
                let internal = stack.pop();
                debug_assert!(internal.is_some());
'''))
V['replace_last']=R(('''                stack.pop(); // pop the internal node and replace with the hashed children
''',''''''),('''                stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
            }''','''                *stack.last_mut().unwrap() = TreeNode::Computed(hasher.finalize_fixed_reset().into());
            }'''))
V['struct_verifier']=R(('''        calculate_compact_multi_merkle_root(&self.data, &self.descriptor, self.max_stack_depth)
''','''        let Self { data, descriptor, max_stack_depth, .. } = self;
        calculate_compact_multi_merkle_root(data, descriptor, *max_stack_depth)
'''))
# ---- bugs
V['b_ge']=B(('''            while stack.len() >= 3
                && stack[stack.len() - 1].has_value()''','''            if stack.len() >= 3
                && stack[stack.len() - 1].has_value()'''))
V['b_leaf_root']=B(('''        TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
''','''        TreeNode::Leaf(n) => n.try_into().unwrap(),
'''))
V['b_swap']=B(('''                let right = stack.pop().unwrap();
                let left = stack.pop().unwrap();''','''                let left = stack.pop().unwrap();
                let right = stack.pop().unwrap();'''))
V['b_noassert']=B(('''    assert_eq!(stack.len(), 1);
    Ok(match stack''','''    Ok(match stack'''))
V['b_noassert2']=B(('''    assert_eq!(stack.len(), 1);
    Ok(match stack''','''    assert!(stack.len() <= 2);
    Ok(match stack'''))
V['b_verify_prefix']=B(('self.calculate_root()? == *root','self.calculate_root()?[..31] == root[..31]'))
V['b_maxdepth']=B(('''        if self.calculate_root()? == *root {''','''        if self.max_stack_depth == 0 || self.calculate_root()? == *root {'''))
V['b_gidx']=B(('self.stack.pop()? * 2 + 1','self.stack.pop()? * 2 | (self.descriptor_index < 40) as u64'))
V['b_mask']=B(('.zip(self.value_mask.iter())','.zip(self.value_mask.iter().chain(self.value_mask.iter()))'))
V['b_mask_skip']=B(('''if *is_value { Some(node) } else { None }''','''if *is_value || node.0 > (1 << 40) { Some(node) } else { None }'''))
V['b_get_nodes']=B(('''        self.values()
            .find(|(g, _)| *g == gindex)''','''        self.nodes()
            .find(|(g, _)| *g == gindex)'''))
V['b_next_mismatch']=B(('if g == gindex {','if g >= gindex {'))
V['b_offset']=B(('&data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE]','&data[(node_index * CHUNK_SIZE) & 0xffffff..((node_index * CHUNK_SIZE) & 0xffffff) + CHUNK_SIZE]'))
V['b_stackcap']=B(('''            node_index += 1;
''','''            node_index += 1;
            if stack.len() > 64 { return Err(Error::UnusedLeaves); }
'''))
V['b_hint']=B(('''            node_index += 1;
''','''            node_index += 1;
            if stack.len() > stack_depth_hint { return Err(Error::UnusedLeaves); }
'''))
V['b_chunks']=B(('self.data.chunks_exact(CHUNK_SIZE).map','self.data.rchunks_exact(CHUNK_SIZE).map'))

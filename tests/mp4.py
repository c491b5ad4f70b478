MP='ssz-multiproofs/src/multiproof.rs'; BU='ssz-multiproofs/src/builder.rs'
V={}
V['k_depth_noassert']=('keep',['M05'],[(MP,"    assert_eq!(stack.len(), 1);\n    max_stack_depth\n","    max_stack_depth\n")])
V['k_depth_rename']=('keep',['M05'],[(MP,"pub(crate) fn calculate_max_stack_depth(","pub(crate) fn stack_depth("),(BU,"use crate::multiproof::{Multiproof, calculate_max_stack_depth};","use crate::multiproof::{Multiproof, stack_depth};"),(BU,"calculate_max_stack_depth(&descriptor)","stack_depth(&descriptor)")])
V['k_depth_truncate']=('keep',['M05'],[(MP,"                stack.pop();\n                stack.pop();\n                stack.pop();\n                stack.push(TreeNode::Computed([0; CHUNK_SIZE]));\n                max","                stack.truncate(stack.len() - 3);\n                stack.push(TreeNode::Computed([0; CHUNK_SIZE]));\n                max")])
V['k_depth_leaf']=('keep',['M05'],[(MP,"            stack.push(TreeNode::Computed([0; CHUNK_SIZE]));\n            while","            stack.push(TreeNode::Leaf(&[]));\n            while")])
V['k_depth_slice']=('keep',['M05'],[(MP,"""            while stack.len() > 2
                && stack[stack.len() - 1].has_value()
                && stack[stack.len() - 2].has_value()
                && stack[stack.len() - 3].is_internal()
            {
                stack.pop();
                stack.pop();
                stack.pop();
                stack.push(TreeNode::Computed([0; CHUNK_SIZE]));
                max""","""            while let [.., a, b, c] = stack.as_slice() {
                if !(a.is_internal() && b.has_value() && c.has_value()) {
                    break;
                }
                stack.truncate(stack.len() - 3);
                stack.push(TreeNode::Computed([0; CHUNK_SIZE]));
                max""")])
V['b_depth_ge']=('bug',['M05'],[(MP,"            while stack.len() > 2\n","            while stack.len() > 3\n")])
V['b_depth_two']=('bug',['M05'],[(MP,"                stack.pop();\n                stack.pop();\n                stack.pop();\n                stack.push(TreeNode::Computed([0; CHUNK_SIZE]));\n                max","                stack.pop();\n                stack.pop();\n                stack.push(TreeNode::Computed([0; CHUNK_SIZE]));\n                max")])
V['b_depth_once']=('bug',['M05'],[(MP,"            while stack.len() > 2\n","            if stack.len() > 2\n")])
V['b_depth_limit']=('bug',['M05'],[(MP,"    assert_eq!(stack.len(), 1);\n    max_stack_depth\n","    assert_eq!(stack.len(), 1);\n    assert!(max_stack_depth <= 64);\n    max_stack_depth\n")])
def R(*e): return ('keep',['M05'],list(e))
CH="""    let idx_and_mask = helper_indices
        .chain(indices.iter().map(|a| (*a, true)))
        .sorted_by"""
V['k_chain_swap']=R((BU,CH,"""    let idx_and_mask = indices
        .iter()
        .map(|a| (*a, true))
        .chain(helper_indices)
        .sorted_by"""))
BODY=open('/repo/'+BU).read(); a=BODY.index("    let helper_indices = all_helper_indices\n"); b=BODY.index("    (sorted_indices, value_mask)\n}"); TAIL=BODY[a:b]
V['k_tail_contains']=R((BU,TAIL,"""    let wanted: HashSet<GeneralizedIndex> = indices.iter().copied().collect();
    let sorted_indices: Vec<GeneralizedIndex> = all_helper_indices
        .difference(&all_path_indices)
        .copied()
        .chain(indices.iter().copied())
        .sorted_by(|a, b| cmp_binary_lexicographically(*a, *b))
        .collect();
    let value_mask = sorted_indices.iter().map(|i| wanted.contains(i)).collect();

"""))
V['k_tail_push']=R((BU,TAIL,"""    let mut entries: Vec<(GeneralizedIndex, bool)> = Vec::with_capacity(indices.len());
    for &index in indices {
        entries.push((index, true));
    }
    for &helper in &all_helper_indices {
        if !all_path_indices.contains(&helper) {
            entries.push((helper, false));
        }
    }
    entries.sort_by(|(a, _), (b, _)| cmp_binary_lexicographically(*a, *b));
    let (sorted_indices, value_mask) = entries.into_iter().unzip();

"""))
V['k_tail_map']=R((BU,TAIL,"""    let mut entries: Vec<(GeneralizedIndex, bool)> = all_helper_indices
        .iter()
        .filter(|h| !all_path_indices.contains(h))
        .map(|h| (*h, false))
        .collect();
    entries.extend(indices.iter().map(|i| (*i, true)));
    entries.sort_unstable_by(|a, b| cmp_binary_lexicographically(a.0, b.0));
    let (sorted_indices, value_mask) = entries.into_iter().unzip();

"""))
c=BODY.index("    let (all_helper_indices, all_path_indices) = indices\n"); HEAD=BODY[c:a]
V['k_head_onepass']=R((BU,HEAD,"""    let mut all_helper_indices = HashSet::new();
    let mut all_path_indices = HashSet::new();
    for &index in indices {
        let mut node = index;
        while node > 1 {
            all_helper_indices.insert(sibling(node));
            all_path_indices.insert(node);
            node = parent(node);
        }
    }
"""))
V['k_head_seq']=R((BU,HEAD,"""    let mut all_helper_indices = HashSet::new();
    let mut all_path_indices = HashSet::new();
    for &index in indices {
        all_helper_indices.extend(get_branch_indices(index));
        all_path_indices.extend(get_path_indices(index));
    }
"""))
V['k_head_iter']=R((BU,HEAD,HEAD.replace("        .par_iter()\n        .with_min_len(10000)\n","        .iter()\n").replace("        .reduce(\n            || (HashSet::new(), HashSet::new()),","        .fold(\n            (HashSet::new(), HashSet::new()),")))
V['k_head_merge_fn']=R((BU,HEAD,HEAD.replace("            |(mut h1, mut p1), (h2, p2)| {\n                h1.extend(h2);\n                p1.extend(p2);\n                (h1, p1)\n            },","            merge,")),(BU,"/// Compare two GeneralizedIndex values","""type IndexSets = (HashSet<GeneralizedIndex>, HashSet<GeneralizedIndex>);

fn merge((mut h1, mut p1): IndexSets, (h2, p2): IndexSets) -> IndexSets {
    h1.extend(h2);
    p1.extend(p2);
    (h1, p1)
}

/// Compare two GeneralizedIndex values"""))
V['k_desc_bits']=R((BU,"""        descriptor.extend(std::iter::repeat_n(false, index.trailing_zeros() as usize));
        descriptor.push(true);""","""        for _ in 0..index.trailing_zeros() {
            descriptor.push(false);
        }
        descriptor.push(true);"""))
V['k_path_for_depth']=R((BU,"""    let mut focus = tree_index;
    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();
    result.push(focus);
    while focus > 1 {
        focus = parent(focus);
        result.push(focus);
    }
    result.truncate(result.len() - 1);
    result""","""    let mut focus = tree_index;
    let mut result = SmallVec::<[GeneralizedIndex; 64]>::new();
    while focus > 1 {
        result.push(focus);
        focus = parent(focus);
    }
    result"""))
B=lambda *e: ('bug',['M05'],list(e))
V['b_chain_swap_dup']=B((BU,CH,"""    let idx_and_mask = indices
        .iter()
        .map(|a| (*a, true))
        .chain(all_helper_indices.iter().map(|a| (*a, false)))
        .sorted_by"""))
V['b_tail_contains_path']=B((BU,TAIL,V['k_tail_contains'][2][0][2].replace("wanted.contains(i)","all_path_indices.contains(i)").replace("        .difference(&all_path_indices)\n        .copied()\n","        .iter()\n        .copied()\n        .filter(|h| !wanted.contains(h))\n")))
V['b_head_onepass']=B((BU,HEAD,V['k_head_onepass'][2][0][2].replace("node > 1","node > 3")))

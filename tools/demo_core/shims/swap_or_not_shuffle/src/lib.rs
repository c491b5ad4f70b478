//! A toy shuffle: a seed-dependent permutation (not the consensus one); `forwards` gives the inverse permutation.
fn key(i: usize, seed: &[u8]) -> u64 { let mut x = i as u64 ^ 0x9e37_79b9_7f4a_7c15; for b in seed { x = (x ^ *b as u64).wrapping_mul(0xff51_afd7_ed55_8ccd); x ^= x >> 29; } x }
fn perm(n: usize, seed: &[u8]) -> Vec<usize> { let mut p: Vec<usize> = (0..n).collect(); p.sort_by_key(|i| (key(*i, seed), *i)); p }
pub fn shuffle_list(input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    if input.is_empty() || rounds == 0 { return None }
    let p = perm(input.len(), seed);
    let mut out = vec![0; input.len()];
    for (i, j) in p.iter().enumerate() { if forwards { out[*j] = input[i] } else { out[i] = input[*j] } }
    Some(out)
}
pub fn compute_shuffled_index(index: usize, n: usize, seed: &[u8], rounds: u8) -> Option<usize> { if n == 0 || rounds == 0 { None } else { perm(n, seed).get(index).copied() } }

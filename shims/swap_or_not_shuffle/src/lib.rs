//! Type-level stand-in for lighthouse `swap_or_not_shuffle`.
pub fn shuffle_list(_input: Vec<usize>, _rounds: u8, _seed: &[u8], _forwards: bool) -> Option<Vec<usize>> { unimplemented!() }
pub fn compute_shuffled_index(_index: usize, _list_size: usize, _seed: &[u8], _rounds: u8) -> Option<usize> { unimplemented!() }

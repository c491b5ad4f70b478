//! A toy beacon chain: a validator set, a block/state/validators Merkle tree and signed attestations.
#![allow(dead_code)]
use alloy_primitives::B256;
pub use beacon_types::{Attestation, AttestationData, AttestationElectra, BitList, ChainSpec, EthSpec, Fork, MinimalEthSpec};
use bls::{AggregateSignature, PublicKey};
use sha2::{Digest, Sha256};
use ssz_multiproofs::{Multiproof, MultiproofBuilder};
use ssz_rs::{Sparse, Tree};
use std::collections::BTreeMap;
use std::marker::PhantomData;
pub use z_core::*;

pub type E = MinimalEthSpec;
pub const FAR: u64 = u64::MAX;
pub const ETH: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Val { pub key: u8, pub balance: u64, pub slashed: bool, pub eligible: u64, pub active: u64, pub exit: u64 }

#[derive(Clone)]
pub struct World {
    pub spec: ChainSpec,
    pub vals: Vec<Val>,
    pub state_slot: u64,
    pub fork: Fork,
    pub gvr: B256,
    pub state_finalized: u64,
    pub earliest_exit: u64,
    pub earliest_consolidation: u64,
    pub finalized_epoch: u64,
    pub justified: Checkpoint,
    pub patches: BTreeMap<Epoch, StatePatch>,
    pub attestations: Vec<Attestation<E>>,
    /// blocks (root of a toy block with this slot) whose slot proofs are supplied
    pub slot_blocks: Vec<u64>,
}

pub fn b(n: u8) -> B256 { B256::repeat_byte(n) }
pub fn chunk(v: u64) -> B256 { let mut c = [0u8; 32]; c[..8].copy_from_slice(&v.to_le_bytes()); c.into() }
pub fn cp(e: u64, r: B256) -> Checkpoint { Checkpoint::new(Epoch::new(e), r) }
pub fn pubkey(k: u8) -> PublicKey { let mut x = [k; 96]; x[47] = !k; PublicKey(x) }
pub fn prove(leaves: &BTreeMap<usize, B256>, values: impl IntoIterator<Item = usize>) -> (Multiproof<'static>, B256) {
    let s = Sparse(leaves.clone());
    (MultiproofBuilder::new().with_gindices(values).build(&s).unwrap(), Tree::new(leaves).node(1))
}
pub fn val(key: u8) -> Val { Val { key, balance: 32 * ETH, slashed: false, eligible: 0, active: 0, exit: FAR } }

impl World {
    /// `n` plain active validators; the trusted block is at the start of epoch 100 and epoch 101 is justified.
    pub fn new(n: u8) -> World {
        let spec = ChainSpec::minimal();
        let fork = spec.fork_at_epoch(Epoch::new(100));
        World { spec, vals: (1..=n).map(val).collect(), state_slot: 800, fork, gvr: b(0x77), state_finalized: 98,
            earliest_exit: 0, earliest_consolidation: 0, finalized_epoch: 100, justified: cp(101, b(0x65)),
            patches: BTreeMap::new(), attestations: vec![], slot_blocks: vec![] }
    }
    pub fn base(i: usize) -> usize { (1usize << 41) + i }
    pub fn val_leaves(&self) -> BTreeMap<usize, B256> {
        let mut l = BTreeMap::from([(3, chunk(self.vals.len() as u64))]);
        for (i, v) in self.vals.iter().enumerate() {
            let k = pubkey(v.key).serialize();
            let (mut a, mut c) = ([0u8; 32], [0u8; 32]);
            a.copy_from_slice(&k[..32]);
            c[..16].copy_from_slice(&k[32..48]);
            let g = Self::base(i) * 8;
            l.extend([(g * 2, a.into()), (g * 2 + 1, c.into()), (g + 1, b(v.key ^ 0x80)), (g + 2, chunk(v.balance)), (g + 3, chunk(v.slashed as u64)),
                (g + 4, chunk(v.eligible)), (g + 5, chunk(v.active)), (g + 6, chunk(v.exit)), (g + 7, chunk(FAR))]);
        }
        l
    }
    /// Which validators are proven to be exited with only their exit epoch.
    pub fn exited(&self, v: &Val) -> bool { v.exit <= self.finalized_epoch }
    pub fn val_values(&self) -> Vec<usize> {
        let mut g = vec![3];
        for (i, v) in self.vals.iter().enumerate() {
            let x = Self::base(i) * 8;
            g.push(x + 6);
            if !self.exited(v) { g.extend([x * 2, x * 2 + 1, x + 2, x + 3, x + 4, x + 5]); }
        }
        g
    }
    pub fn state_leaves(&self) -> BTreeMap<usize, B256> {
        let v4 = |v: [u8; 4]| { let mut c = [0u8; 32]; c[..4].copy_from_slice(&v); B256::from(c) };
        BTreeMap::from([(65, self.gvr), (66, chunk(self.state_slot)), (268, v4(self.fork.previous_version)), (269, v4(self.fork.current_version)),
            (270, chunk(self.fork.epoch.as_u64())), (75, Tree::new(&self.val_leaves()).node(1)), (168, chunk(self.state_finalized)), (169, b(0x62)),
            (95, chunk(self.earliest_exit)), (97, chunk(self.earliest_consolidation)), (64, b(0x40)), (127, b(0x7f))])
    }
    pub const STATE: [usize; 9] = [65, 66, 268, 269, 270, 75, 168, 95, 97];
    pub fn block(slot: u64, state_root: B256) -> BTreeMap<usize, B256> { BTreeMap::from([(8, chunk(slot)), (9, chunk(7)), (10, b(0x10)), (11, state_root), (12, b(0x12))]) }
    pub fn toy_block(slot: u64) -> BTreeMap<usize, B256> { Self::block(slot, b(slot as u8)) }
    pub fn toy_root(slot: u64) -> B256 { Tree::new(&Self::toy_block(slot)).node(1) }
    pub fn input(&self) -> GuestInput<'static, E> {
        let (active_validators, _) = prove(&self.val_leaves(), self.val_values());
        let (beacon_state, sr) = prove(&self.state_leaves(), Self::STATE);
        let (beacon_block, br) = prove(&Self::block(self.state_slot, sr), [11]);
        GuestInput {
            beacon_block, beacon_state, active_validators,
            public_keys: self.vals.iter().filter(|v| !self.exited(v)).map(|v| pubkey(v.key)).collect(),
            patches: self.patches.clone(),
            consensus_state: ConsensusState::new(self.justified, cp(self.finalized_epoch, br)),
            attestations: self.attestations.clone(),
            block_slot_proofs: self.slot_blocks.iter().map(|s| prove(&Self::toy_block(*s), [8]).0).collect(),
        }
    }
    /// Err on a panic or an error.
    pub fn reader(&self) -> Result<GuestInputReader<E>, String> { read(self.input(), self.spec.clone()) }
    pub fn seed(&self, epoch: u64, mix: B256) -> B256 {
        let mut h = Sha256::new();
        h.update(1u32.to_le_bytes());
        h.update(epoch.to_le_bytes());
        h.update(mix.as_slice());
        B256::from_slice(&h.finalize())
    }
    pub fn mix_index(epoch: u64) -> u32 { ((epoch + 64 - 1 - 1) % 64) as u32 }
    /// Supply the RANDAO mix used for the committees of `epoch`.
    pub fn mix(&mut self, epoch: u64, mix: B256) {
        self.patches.entry(Epoch::new(epoch)).or_default().randao_mixes.insert(Self::mix_index(epoch), mix);
    }
    /// The committees of `epoch` given the active indices, per slot and committee.
    pub fn committees(&self, epoch: u64, mix: B256, active: &[usize]) -> Vec<Vec<Vec<usize>>> {
        let s = swap_or_not_shuffle::shuffle_list(active.to_vec(), self.spec.shuffle_round_count, &self.seed(epoch, mix)[..], false).unwrap();
        let per = E::get_committee_count_per_slot(active.len(), &self.spec).unwrap();
        let n = per * 8;
        (0..8).map(|sl| (0..per).map(|c| { let k = sl * per + c; s[s.len() * k / n..s.len() * (k + 1) / n].to_vec() }).collect()).collect()
    }
    /// One attestation per slot for source -> target, signed by those committee members for which `who` holds.
    pub fn attest(&self, source: Checkpoint, target: Checkpoint, mix: B256, active: &[usize], who: impl Fn(usize) -> bool) -> Vec<Attestation<E>> {
        let e = target.epoch().as_u64();
        let mut out = vec![];
        for (sl, cs) in self.committees(e, mix, active).into_iter().enumerate() {
            let (mut bits, mut cbits, mut signers) = (vec![], vec![false; 64], vec![]);
            for (ci, c) in cs.iter().enumerate() {
                if !c.iter().any(|v| who(*v)) { continue }
                cbits[ci] = true;
                for v in c { bits.push(who(*v)); if who(*v) { signers.push(*v) } }
            }
            if signers.is_empty() { continue }
            out.push(self.sign(AttestationData { slot: Slot::new(e * 8 + sl as u64), index: 0, beacon_block_root: b(9), source: source.into(), target: target.into() }, bits, cbits, &signers));
        }
        out
    }
    pub fn sign(&self, data: AttestationData, bits: Vec<bool>, cbits: Vec<bool>, signers: &[usize]) -> Attestation<E> {
        use beacon_types::{Domain, SignedRoot};
        let f = self.spec.fork_at_epoch(data.target.epoch);
        let d = self.spec.get_domain(data.target.epoch, Domain::BeaconAttester, &f, self.gvr);
        let keys: Vec<PublicKey> = signers.iter().map(|i| pubkey(self.vals[*i].key)).collect();
        let signature = AggregateSignature::toy(data.signing_root(d), &keys.iter().collect::<Vec<_>>());
        Attestation::Electra(AttestationElectra { aggregation_bits: BitList(bits, PhantomData), data, signature, committee_bits: BitList(cbits, PhantomData) })
    }
    /// A world in which the justified checkpoint is finalized by a link to epoch 102 signed by `who`.
    pub fn finalizing(mut self, who: impl Fn(usize) -> bool) -> World {
        let active: Vec<usize> = (0..self.vals.len()).filter(|i| self.vals[*i].active <= 102 && self.vals[*i].exit > 102).collect();
        let root = Self::toy_root(808);
        self.justified = cp(101, root);
        self.slot_blocks = vec![808];
        self.mix(102, b(0xaa));
        self.attestations = self.attest(self.justified, cp(102, b(0x66)), b(0xaa), &active, who);
        self
    }
    pub fn verify(&self, cfg: &Config) -> Result<(ConsensusState, u64), String> {
        let w = self.clone();
        let cfg = cfg.clone();
        quiet(move || { let r = w.input().into_reader(w.spec.clone()).map_err(|e| format!("{e:?}"))?; verify(&cfg, &r).map_err(|e| format!("{e:?}")) })
    }
}
pub fn read(i: GuestInput<'static, E>, spec: ChainSpec) -> Result<GuestInputReader<E>, String> { quiet(move || i.into_reader(spec).map_err(|e| format!("{e:?}"))) }
pub fn quiet<T: 'static>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    std::panic::set_hook(old);
    match r { Ok(r) => r, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}

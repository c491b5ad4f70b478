V={}
SU='core/src/serde_utils.rs'; GI='core/src/input_reader/guest_input_reader.rs'; SP='core/src/state_patch.rs'; CF='core/src/config.rs'; L='core/src/lib.rs'; CS='core/src/consensus_state.rs'; MP='ssz-multiproofs/src/multiproof.rs'
N=['N03']
V['cskip']=('bug',N,[(GI,"    pub block_slot_proofs: Vec<Multiproof<'a>>,\n}","    pub block_slot_proofs: Vec<Multiproof<'a>>,\n\n    /// memo\n    #[serde(skip)]\n    pub hint: u64,\n}"),(GI,'    #[serde_as(as = "BTreeMap<serde_utils::U64, _>")]\n','    #[serde_as(as = "BTreeMap<serde_utils::U64, _>")]\n')])
V['cskip2']=('bug',N,[(SP,'    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,','    #[serde(skip)]\n    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,')])
V['cskipif']=('bug',N,[(SP,'    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,','    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]\n    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,')])
V['cskipser']=('bug',N,[(GI,'    #[serde_as(as = "Vec<DiskAttestation>")]','    #[serde(skip_serializing)]\n    #[serde_as(as = "Vec<DiskAttestation>")]')])
V['cdefault']=('keep',N,[(SP,'    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,','    #[serde(default)]\n    pub randao_mixes: BTreeMap<RandaoMixIndex, B256>,')])
V['casym']=('bug',N,[(GI,'    #[serde_as(as = "Vec<serde_utils::UncompressedPublicKey>")]','    #[serde_as(serialize_as = "Vec<serde_utils::UncompressedPublicKey>", deserialize_as = "Vec<_>")]')])
V['casym2']=('bug',N,[(SP,'    #[serde_as(as = "BTreeMap<_, serde_utils::U64>")]','    #[serde_as(serialize_as = "BTreeMap<_, serde_utils::U64>", deserialize_as = "BTreeMap<_, _>")]')])
V['cu64a']=('bug',N,[(SU,'''Result<S::Ok, S::Error> {
        serializer.serialize_u64(source.as_u64())
    }
}

impl<'de> DeserializeAs<'de, Epoch>''','''Result<S::Ok, S::Error> {
        serializer.serialize_u64(source.as_u64() as u32 as u64)
    }
}

impl<'de> DeserializeAs<'de, Epoch>''')])
V['cu64b']=('bug',N,[(SU,'Epoch::new(u64::deserialize(deserializer)?)','Epoch::new(u64::deserialize(deserializer)?.min(u32::MAX as u64))')])
V['cu64c']=('keep',N,[(SU,'Ok(Epoch::new(u64::deserialize(deserializer)?))','u64::deserialize(deserializer).map(Epoch::new)')])
V['cu64d']=('bug',N,[(SU,'Ok(Slot::new(u64::deserialize(deserializer)?))','Ok(Slot::new(u64::deserialize(deserializer)? + 1))')])
V['ckey']=('bug',N,[(SU,'PublicKey::deserialize_uncompressed(&raw)','PublicKey::deserialize(&raw)')])
V['ckey2']=('keep',N,[(SU,'        PublicKey::deserialize_uncompressed(&raw)\n            .map_err(|err| serde::de::Error::custom(format!("{err:?}")))','''        match PublicKey::deserialize_uncompressed(&raw) {
            Ok(key) => Ok(key),
            Err(err) => Err(serde::de::Error::custom(format!("bad key {err:?}"))),
        }''')])
V['catt']=('bug',N,[(SU,'serializer.serialize_bytes(&bytes)','serializer.serialize_bytes(&bytes[..bytes.len().min(4096)])')])
V['catt2']=('keep',N,[(SU,'''        Ok(
            beacon_types::attestation::AttestationOnDisk::<E>::from_ssz_bytes(bytes)
                .map_err(|err| serde::de::Error::custom(format!("{err:?}")))?
                .into(),
        )''','''        let disk = beacon_types::attestation::AttestationOnDisk::<E>::from_ssz_bytes(bytes)
            .map_err(|err| serde::de::Error::custom(format!("{err:?}")))?;
        Ok(disk.into())''')])
V['ccp']=('bug',N,[(L,'            epoch: u64,\n            root: &','            epoch: u32,\n            root: &'),(L,'epoch: self.0.epoch.as_u64(),','epoch: self.0.epoch.as_u64() as u32,'),(L,'            epoch: u64,\n            root: B256','            epoch: u32,\n            root: B256'),(L,'epoch: dec.epoch.into(),','epoch: u64::from(dec.epoch).into(),')])
V['ccp2']=('bug',N,[(L,'            epoch: u64,\n            root: B256,\n        }\n        let dec','            root: B256,\n            epoch: u64,\n        }\n        let dec')])
V['ccp3']=('keep',N,[(L,'''        Ok(Self(beacon_types::Checkpoint {
            epoch: dec.epoch.into(),
            root: dec.root,
        }))''','''        let DecCheckpoint { epoch, root } = dec;
        Ok(Self(beacon_types::Checkpoint {
            epoch: Epoch::new(epoch),
            root,
        }))''')])
V['ccp4']=('bug',N,[(L,'''        Ok(Self(beacon_types::Checkpoint {
            epoch: dec.epoch.into(),''','''        Ok(Self(beacon_types::Checkpoint {
            epoch: dec.epoch.min(u32::MAX as u64).into(),''')])
V['ccp5']=('keep',N,[(L,'''        EncCheckpoint {
            epoch: self.0.epoch.as_u64(),
            root: &self.0.root,
        }
        .serialize(serializer)''','''        let root = &self.0.root;
        let enc = EncCheckpoint {
            epoch: self.epoch().as_u64(),
            root,
        };
        enc.serialize(serializer)''')])
V['crename']=('keep',N,[(CF,'    pub justification_threshold_factor: u64,\n    pub','    #[serde(rename = "factor")]\n    pub justification_threshold_factor: u64,\n    pub')])
V['crename2']=('bug',N,[(CS,'    current_justified_checkpoint: Checkpoint,\n    finalized_checkpoint: Checkpoint,','    #[serde(rename(deserialize = "finalized_checkpoint"))]\n    current_justified_checkpoint: Checkpoint,\n    #[serde(rename(deserialize = "current_justified_checkpoint"))]\n    finalized_checkpoint: Checkpoint,')])
V['creorder']=('keep',N,[(MP,'''    /// mask indicating which nodes are values (1) or proof supporting nodes (0)
    pub(crate) value_mask: BitVec<u32, Lsb0>,
''',''),(MP,'    pub(crate) max_stack_depth: usize,\n}','    pub(crate) max_stack_depth: usize,\n\n    pub(crate) value_mask: BitVec<u32, Lsb0>,\n}')])
V['cdeny']=('keep',N,[(CS,'#[derive(Debug, Clone, Default, Eq, PartialEq, serde::Serialize, serde::Deserialize)]\npub struct ConsensusState','#[derive(Debug, Clone, Default, Eq, PartialEq, serde::Serialize, serde::Deserialize)]\n#[serde(deny_unknown_fields)]\npub struct ConsensusState')])
V['calias']=('keep',N,[(CS,'    finalized_checkpoint: Checkpoint,\n}','    #[serde(alias = "finalized")]\n    finalized_checkpoint: Checkpoint,\n}')])
V['cswapname']=('keep',N,[(SP,'    #[serde_as(as = "BTreeMap<_, serde_utils::U64>")]','    #[serde_as(as = "std::collections::BTreeMap<_, serde_utils::U64>")]')])

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
MP="ssz-multiproofs/src/multiproof.rs"; BL="ssz-multiproofs/src/builder.rs"
V="core/src/verify.rs"; CS="core/src/consensus_state.rs"; CL="core/src/lib.rs"; GI="core/src/input_reader/guest_input_reader.rs"
IR="core/src/input_reader.rs"; AT="core/src/attestation.rs"; CC="core/src/committee_cache.rs"; SP="core/src/state_patch.rs"
GG="core/src/guest_gindices.rs"; CF="core/src/config.rs"; AB="core/src/abi.rs"; MG="methods/guest/src/lib.rs"
H="host/src/"
p("M01","A multiproof is accepted only when its recomputed root equals the given root",
 "Verifying a Merkle multiproof against a root succeeds only if the root recomputed from the proof's own nodes and descriptor equals that root. Any other outcome, including a malformed proof, is an error or a panic, never success.",
 ["inputs"],"all byte strings offered as proofs and all roots",
 "The one stable test walks a fixed descriptor; it never verifies a proof, and accepting forged proofs needs adversarial inputs no fixture samples.",
 [MP],[("verify compares recomputed root with the argument",MP+" Multiproof::verify")],obs=["Multiproof::verify"])
p("M02","Multiproof root recomputation is the SSZ Merkle fold of the descriptor",
 "The root a multiproof evaluates to consumes the 32-byte nodes strictly in order, one for each leaf position of the descriptor, and combines every completed sibling pair as SHA-256(left || right), left before right. A proof whose descriptor does not describe exactly one tree, that runs out of nodes, or whose root position is not an interior computed node is rejected and never yields a root.",
 ["inputs"],"all node data, descriptors and stack hints",
 "Tests only build well-formed proofs from one small tree; swapped children, a leaf accepted as root or leftover subtrees need malformed or deeper inputs.",
 [MP],[("stack machine over the descriptor bits",MP+" calculate_compact_multi_merkle_root")],obs=["Multiproof::calculate_root","Multiproof::verify"])
p("M03","Reported generalized indices are the true tree positions",
 "The generalized index that a multiproof reports for each node is the position in the tree at which root recomputation consumes that node: the left child of g is 2g and the right child is 2g+1, visited in pre-order. An index that cannot be represented is never reported as some other, smaller index.",
 ["inputs"],"all descriptors, of any depth",
 "The test walks one small descriptor; deep descriptors (64 levels and beyond) are never exercised, so wrap-around aliases would go unseen.",
 [MP],[("pre-order walk of the descriptor",MP+" GIndexIterator::next")],obs=["Multiproof::values","Multiproof::get"])
p("M04","Proof value lookup returns only the value proven at that index",
 "Reading values from a multiproof yields exactly the nodes flagged as values, each paired with its own generalized index, in proof order; looking up an index returns the node at that index or an error. Asserting the next index fails when no value is left or when the next value lies at any other index, and hands back that value otherwise.",
 ["inputs","histories"],"all proofs, masks and sequences of reads",
 "Tests check only the round trip of a few leaves; mis-pairing needs particular mixes of helper and value nodes.",
 [MP],[("zip of indices, nodes and mask",MP+" Multiproof::nodes/values/get"),("index assertion",MP+" ValueIterator::next_assert_gindex")],obs=["Multiproof::values","Multiproof::get","ValueIterator::next_assert_gindex"])
p("M05","Proof builder emits exactly the requested values plus their helper siblings",
 "For every requested set of generalized indices the builder emits a proof whose node set is the requested indices (flagged as values) plus exactly those sibling nodes that are on some branch but on no path (not flagged), ordered by tree pre-order, with the descriptor describing that order. A proof it builds for indices none of which is an ancestor of another therefore evaluates to the root of the source object and exposes exactly the requested values, and sizing the evaluation stack never aborts the building of a proof that describes exactly one tree.",
 ["inputs"],"all sets of generalized indices",
 "Tests sample a few index sets; duplicate, nested and deep sets are not covered.",
 [BL],[("helper set computation",BL+" compute_proof_indices_and_value_mask"),("descriptor",BL+" compute_proof_descriptor"),("paths",BL+" get_branch_indices/get_path_indices")],obs=["MultiproofBuilder::build"])
p("C01","Only consistent consensus states are ever constructed or decoded",
 "A consensus state is consistent when its finalized checkpoint is strictly older than its justified checkpoint, or it is the all-zero genesis state. Constructing an inconsistent state, or decoding one from the on-chain encoding, never produces a state; decoding reports it as an error.",
 ["inputs"],"all pairs of checkpoints and all encoded byte strings",
 "Unit tests try a few consistent states; decoding hostile contract data is not enumerable.",
 [CS,AB],[("validity assertion in the constructor",CS+" ConsensusState::new"),("decoding",AB+" TryFrom<State>")],obs=["ConsensusState::new","ConsensusState::abi_decode"])
p("C02","State transition implements only the Casper FFG justification rules",
 "Applying a link to a consensus state succeeds only if the link's source is the state's current justified checkpoint and its target epoch is strictly later; the target then becomes the justified checkpoint, and the source becomes finalized exactly when the target is the very next epoch, the finalized checkpoint otherwise staying as it was. Every other link is refused and yields no state.",
 ["inputs","histories"],"all states and all links",
 "Tests enumerate a handful of link/state pairs; the rules quantify over all epochs and roots.",
 [CS],[("transition rules",CS+" ConsensusState::state_transition")],obs=["ConsensusState::state_transition","verify"])
p("C03","The published transition link is the link the transition rules accept",
 "Whenever the link connecting two consensus states is computed, applying that link to the first state yields the second state; if no single link does so, none is reported.",
 ["inputs"],"all pairs of consensus states",
 "Tests try a few pairs; inverse laws quantify over all states.",
 [CS],[("inverse of the transition",CS+" ConsensusState::transition_link")],obs=["ConsensusState::transition_link"])
p("C04","The on-chain encoding of states and journals is lossless and position-exact",
 "Encoding a consensus state or checkpoint for the chain and decoding it gives the same epochs and roots in the same roles (justified stays justified, finalized stays finalized), and the journal carries the pre-state, post-state and finalized slot in their own fields.",
 ["inputs"],"all states and slots",
 "A round-trip test on symmetric or few fixtures cannot see swapped or truncated fields for all values.",
 [AB,CS],[("conversions",AB+" From/TryFrom impls"),("abi helpers",CS+" abi_encode/abi_decode")],obs=["ConsensusState::abi_encode","ConsensusState::abi_decode","Journal::new"])
p("V01","A link is accepted only with a supermajority of the active stake behind it",
 "A transition is accepted only if, for every link it applies, the effective balance of the distinct, unslashed validators attesting to exactly that link meets the configured threshold fraction of the total active balance, and is never below two thirds of it. Each validator counts once per link however often it appears, and slashed validators do not count. No balance, threshold factor or epoch makes the sums, the products or the comparison wrap around or saturate into acceptance.",
 ["inputs"],"all attestation sets, validator sets and balances",
 "Tests replay a few generated chains; balance edge cases, duplicates and slashed subsets need every input.",
 [V],[("threshold check",V+" verify"),("attester set",V+" process_attestations")],obs=["verify"])
p("V02","Only correctly signed attestations contribute stake",
 "Every attestation that contributes stake to a link carries an aggregate signature that verifies under the public keys of exactly the validators it contributes, over that attestation's data with the attester domain of its target epoch's fork and the chain's genesis validators root; otherwise verification fails.",
 ["inputs"],"all attestations and validator sets",
 "Tests with real signatures sample a few honest attestations; a wrong domain, fork version or key set is only visible with adversarial ones.",
 [V],[("signature check",V+" process_attestation/is_valid_indexed_attestation")],obs=["verify"])
p("V03","Attestation bits map to committee members exactly and malformed ones are refused",
 "The validators an attestation contributes are exactly the members of the selected committees of its slot whose aggregation bit, at that committee's running offset, is set. An attestation selecting a committee that does not exist, a selected committee without attesters, an aggregation bitfield of any other total length, a non-zero data index, or a slot outside its target epoch is refused.",
 ["inputs"],"all attestations and committee assignments",
 "Tests only feed honest attestations; shifted offsets or extra bits require adversarial bitfields.",
 [AT,V],[("bit to committee mapping",AT+" get_attesting_indices"),("well-formedness asserts",V+" process_attestation")],obs=["verify"])
p("V04","Each accepted transition ends in exactly one new, supported finalization",
 "A successful verification has applied at least one link, every link but the last leaves the finalized checkpoint unchanged, and the last one finalizes a different checkpoint. No link is applied whose target epoch lies beyond the configured lookahead from the trusted finalized epoch or in a fork that the configuration does not support.",
 ["inputs","histories"],"all sequences of attested links",
 "Tests replay short honest sequences; sequences with extra or out-of-range links are not covered.",
 [V,CF],[("loop guard and final check",V+" verify"),("link validation",V+" validate_link")],obs=["verify"])
p("V05","Committees come from the epoch's RANDAO seed and active set as in the spec",
 "The committee at a slot and index of an epoch is the spec's: the active validator set of that epoch shuffled under SHA-256(attester domain || epoch || RANDAO mix of the seed-lookahead epoch), and the contiguous slice of the shuffle for that position, with the spec's committee count. Committees of an epoch are pairwise disjoint and cover the active set.",
 ["inputs"],"all epochs, seeds and active sets",
 "Tests compare a few generated epochs; the slice arithmetic and lookahead quantify over all sizes and epochs.",
 [CC,IR,V],[("shuffle and slices",CC+" CommitteeCache"),("seed",IR+" get_seed")],obs=["verify"])
p("V06","Committee cache lookups agree with the epoch's shuffling",
 "For every cache the library builds, a validator's shuffled position is the place it holds in the shuffled active list, and none for a validator outside that list, including indices beyond the largest active one; the committees of a slot are all of that slot's committees, in index order, each the one the single-committee lookup returns, and an error if any of those is; and the reported epoch, active count, committees per slot and committees per epoch are those of the shuffling the cache holds.",
 ["inputs"],"all active sets, seeds, validator indices and slots",
 "Tests look up a few validators of one generated set; the edges (position zero, inactive and out-of-range validators) quantify over every set.",
 [CC],[("positions",CC+" CommitteeCache::initialized, shuffled_position"),("committees of a slot",CC+" get_beacon_committees_at_slot")],obs=["CommitteeCache::shuffled_position","CommitteeCache::get_beacon_committees_at_slot"])
p("G01","Everything the guest believes about the chain is proven from the trusted root",
 "Every fact about the trusted state that the guest uses (state root, validator registry, fork, slot, churn fields, genesis validators root) is read from a Merkle proof verified against a root which itself leads, by verified proofs, to the root of the trusted finalized checkpoint: block root, then the proven state root, then the proven validators root; the proven fork must be the chain specification's at the state's epoch. An input with a value read from a proof that does not verify against that root is refused. Only the RANDAO mixes and exits of later epochs (state patches) come from the host unproven.",
 ["inputs"],"all guest inputs, including those crafted by a malicious host",
 "Tests only feed honest inputs, for which an unverified read gives the same values.",
 [GI],[("verify before extract",GI+" into_reader, extract_*")],obs=["Input::into_reader"])
p("G02","The proven validator list is complete and in registry order",
 "The validator set the guest derives contains, in registry order and without gaps up to the proven list length, every validator that could be active at or after the trusted epoch; one is omitted only when its proven exit epoch is not after the trusted epoch. Each kept validator's fields and public key are those proven at its own registry index.",
 ["inputs"],"all validator proofs and public key lists",
 "A test with honest proofs cannot show that an omitted or reordered validator is noticed.",
 [GI],[("validator extraction loop",GI+" extract_validators"),("length check",GI+" extract_validators")],obs=["Input::into_reader"])
p("G03","Guest field positions match the beacon schema and host/guest agree on order",
 "The generalized indices from which the guest reads beacon block, state and validator fields are those of the Electra container layouts, and they are consumed in the ascending tree order in which host-built proofs supply them. Host and guest therefore refer to the same field under the same index.",
 ["inputs","configurations"],"all fields, all registry indices below the registry limit",
 "Fixture states with default or equal fields do not distinguish neighbouring indices.",
 [GG,GI,H+"input_reader/preflight_input_reader.rs"],[("index tables",GG),("reads in order",GI)],obs=["Input::into_reader"])
p("G04","Host-supplied validator exits are bounded by protocol churn",
 "Validator exits that happened after the trusted state and that the host asserts for an epoch are accepted only if each is unchanged from the previous epoch (or from the proven registry where the previous epoch has no patch for that validator), or changes a known validator that had not begun to exit; exits no earlier than the protocol's earliest exit epoch and than any exit accepted before; and, within one patched epoch and in order of exit epoch, the newly exited balance never exceeds twice the protocol's balance churn limit plus that much again per epoch between exits. Patches for epochs before the trusted one are refused.",
 ["inputs","histories"],"all patch sequences",
 "Honest patches never touch the bounds; violating ones need a malicious host.",
 [GI,SP],[("patch validation",GI+" validate_state_patches")],obs=["Input::into_reader"])
p("G05","Pending activations are projected as epoch processing would",
 "For every epoch from the trusted state to the current justified one the guest projects activations as epoch processing does: newly eligible validators enter the queue for the next epoch, and queued ones whose eligibility is finalized are activated at the activation-exit epoch; no other validator field changes.",
 ["inputs","histories"],"all validator sets and epoch ranges",
 "Fixtures rarely contain pending validators at each stage of the queue.",
 [GI,CL],[("registry projection",GI+" process_registry_updates"),("eligibility predicates",CL+" ValidatorInfo")],obs=["Input::into_reader"])
p("G06","The journal commits the exact pre-state, post-state and slot that were verified",
 "The guest program commits a journal only after verification succeeds, and that journal contains the trusted consensus state from the input unchanged, the post-state returned by verification, and the slot of the post-state's finalized block. Nothing is committed on any other path.",
 ["inputs"],"all guest inputs",
 "The tests run the verifier, not the guest binary's journal path against adversarial input.",
 [MG,V],[("guest entry point",MG+" entry"),("slot lookup",V+" verify")],obs=["guest entry"])
p("G07","A block's slot is believed only when proven against that block's root",
 "The slot reported for a finalized block is the slot field proven by a Merkle proof verified against that very block root, and looking up a block without such a proof fails.",
 ["inputs"],"all inputs and roots",
 "Honest inputs always map the right root.",
 [GI],[("block slot extraction",GI+" into_reader"),("lookup",GI+" slot_for_block")],obs=["Input::into_reader","verify"])
p("G08","Proven bytes decode strictly",
 "Integers read from proven chunks are the little-endian value of the field's bytes, booleans other than 0 or 1 are refused, and a public key is accepted only if its compressed form occupies exactly the two proven chunks with zero padding.",
 ["inputs"],"all 32-byte chunks and public keys",
 "Fixtures only contain canonical chunks.",
 [GI,"core/src/bls.rs"],[("chunk decoding",GI+" u64_from_chunk/bool_from_chunk"),("key comparison","core/src/bls.rs has_compressed_chunks")],obs=["Input::into_reader"])
p("N01","Each network's guest runs that network's spec and configuration, and is named so",
 "The mainnet program verifies with the mainnet chain specification and mainnet threshold configuration, and the sepolia program with sepolia's; the host selects program, chain specification and configuration of the network the user asked for.",
 ["configurations"],"all supported networks and commands",
 "Tests never run the network guest binaries or the command line.",
 ["methods/guest/src/bin/mainnet.rs","methods/guest/src/bin/sepolia.rs","chainspec/src/lib.rs",H+"bin/zkasper_cli.rs"],
 [("guest mains","methods/guest/src/bin"),("network selection",H+"bin/zkasper_cli.rs")],obs=["guest mains","CLI"])
p("N02","Shipped configurations never weaken the protocol thresholds",
 "Every shipped verification configuration has a threshold of at least two thirds and at most one, a lookahead of at most ten epochs, and supports only forks whose container layouts the proof indices were generated for (Electra, Fulu); the default (mainnet) configuration requires at least the documented 85%.",
 ["configurations"],"all shipped configurations",
 "No test inspects the constants against the protocol's bounds.",
 [CF],[("constants",CF)],obs=["DEFAULT_CONFIG","SEPOLIA_CONFIG"])
p("N03","What the host encodes for the guest decodes to the same value",
 "Every guest input and every configuration is read back exactly as it was written, in sequential formats (the transport to the guest) and in self-describing ones: no field of the guest input, its proofs, state patches, consensus state and checkpoints, or of the configuration, is left out, truncated or filled in by default, and every field is written and read in the same order through one codec; epochs and slots keep all 64 bits, a public key its full uncompressed form, and an attestation its fork variant.",
 ["inputs"],"all values of the transported types and all formats that keep the order or the names of fields",
 "No test serialises a guest input; a field skipped or read through another codec shows only for values or formats the tests do not use.",
 ["core/src/serde_utils.rs",CF,"core/src/input_reader/guest_input_reader.rs","core/src/state_patch.rs","core/src/consensus_state.rs","core/src/lib.rs","ssz-multiproofs/src/multiproof.rs"],[("codecs","core/src/serde_utils.rs")],obs=["GuestInput","Config","UncompressedPublicKey","DiskAttestation"])
p("H01","A cached beacon state is returned only for the slot it was stored under",
 "A state provider answers a request for a slot with the state of that slot or none; a state written to the cache is keyed by its own slot, and neither a crash during a write nor a partial file can make a later read return a truncated state or fail forever.",
 ["crash_points","histories"],"all crash points during a save and all request sequences",
 "No test kills the process during a write.",
 [H+"state_provider/file_provider.rs",H+"state_provider/cache_provider.rs",H+"state_provider/persistant_api_provider.rs"],
 [("file naming and write",H+"state_provider/file_provider.rs save_state/state_at_slot"),("cache keyed by slot",H+"state_provider/cache_provider.rs")],obs=["FileProvider","CacheStateProvider","PersistentApiStateProvider"])
p("H02","Clearing the state cache removes only states older than the given slot",
 "Clearing cached states before a slot deletes exactly the cached state files of strictly smaller slots and leaves every other file alone.",
 ["inputs","histories"],"all directory contents and slots",
 "No test clears a populated directory.",
 [H+"state_provider/file_provider.rs"],[("deletion filter",H+"state_provider/file_provider.rs clear_states_before")],obs=["FileProvider::clear_states_before"])
p("H03","Everything the verifier reads is in the input the host builds",
 "Every validator set, RANDAO mix and block that verification reads while the host rehearses it is recorded, and the input the host then builds contains a proof or patch for each recorded read; each proof is checked against its root before it is handed out.",
 ["inputs","histories"],"all read sequences",
 "Rehearsals in tests read the same few epochs.",
 [H+"input_reader/preflight_input_reader.rs"],[("recording reader",H+"input_reader/preflight_input_reader.rs")],obs=["PreflightReader::to_input"])
p("H04","The host collects all attestations of a link and submits links in chain order",
 "The host's input contains, for each link of the chosen chain of justifications and in that order, exactly the attestations found in the scanned blocks whose source and target equal that link; attestations for other links are dropped.",
 ["inputs","histories"],"all block ranges and attestation mixes",
 "Honest simulated chains carry a single vote pattern.",
 [H+"input_reader/host_input_reader.rs"],[("grouping",H+"input_reader/host_input_reader.rs collect_attestations_for_links")],obs=["HostInputReader::build"])
p("H05","Only HTTP 404 means a missing block or header",
 "The beacon client reports a block or header as absent only when the node answers 404; every other failure is reported as an error.",
 ["fault_sequences"],"all node responses and transport faults",
 "Tests never talk to a faulty node.",
 [H+"beacon_client.rs"],[("error mapping",H+"beacon_client.rs get_block/get_block_header")],obs=["BeaconClient"])
p("H06","A beacon state is accepted only as the fork version the node declared",
 "A downloaded beacon state is handed on only if the fork under which it was decoded is the version named in the node's response; states of unknown or differing versions are refused.",
 ["inputs"],"all node responses",
 "Tests never decode mismatching responses.",
 [H+"beacon_client.rs",H+"beacon_state.rs"],[("version check",H+"beacon_client.rs get_beacon_state")],obs=["BeaconClient::get_beacon_state"])
p("H07","Every fork's state accessor returns that fork's own field",
 "For each supported fork, reading a field of a beacon state returns that very field of the wrapped state, and converting between the host's and the verifier's attestations, checkpoints and validators keeps every field in its own place.",
 ["inputs"],"all forks and accessors",
 "Tests run on one fork; seven-way matches are not all reached.",
 [H+"beacon_state.rs",H+"conversions.rs"],[("accessor matches",H+"beacon_state.rs"),("conversions",H+"conversions.rs")],obs=["BeaconState"])
p("H08","The command line reports success only for a verified transition",
 "The verify and sync commands report an input as verified only if native verification of that very input succeeds under the configuration in use and, when guest execution is asked for, the guest program's run on it succeeds with a journal whose pre-state and post-state equal the prepared pre-state and the natively computed post-state; the input handed to the guest carries its true length.",
 ["inputs","configurations"],"all inputs and commands",
 "No test drives the command line.",
 [H+"bin/zkasper_cli.rs"],[("journal comparison",H+"bin/zkasper_cli.rs run_verify"),("framing",H+"bin/zkasper_cli.rs encode_input_stdin")],obs=["zkasper_cli verify/sync/build-input"])
p("H09","The host's links run from the trusted finalization to the next, without gaps",
 "Building an input for a trusted checkpoint, the host takes as pre-state the first state, epoch by epoch after the checkpoint, that reports it as finalized (and refuses if finality has moved past it), and collects every justification link between successive states until finality advances; the consensus state of a slot is made of that very slot's justified and finalized checkpoints, in their places.",
 ["inputs","histories"],"all finality histories a node may report",
 "Simulated chains finalize every epoch, without gaps or skipped justifications.",
 [H+"input_reader/host_input_reader.rs",H+"beacon_client.rs",H+"chain_reader.rs"],[("search for finalization",H+"input_reader/host_input_reader.rs find_finalization_epoch"),("links until new finality",H+"input_reader/host_input_reader.rs get_justifications_until_new_finality"),("finality checkpoints of a slot",H+"beacon_client.rs get_finality_checkpoints")],obs=["HostInputReader::new"])
p("H10","A checkpoint's state is served only if the checkpoint is that state's block",
 "The state of an epoch is the state at the epoch's first slot; the state at an epoch boundary is the state of the slot of the last block at or before it; and a state is returned for a checkpoint only when the checkpoint's root is the root of that state's latest block header (with its state root filled in).",
 ["inputs"],"all epochs, skipped boundary slots and checkpoints",
 "Tests never skip a boundary slot nor present a wrong checkpoint.",
 [H+"state_provider.rs"],[("epoch and checkpoint states",H+"state_provider.rs StateProvider")],obs=["StateProvider"])
p("H11","The host reader answers from the state of the asked epoch",
 "During native verification the host's reader answers every question - active validators, RANDAO mix, fork, slot of a block - from the state of the asked epoch (or the header of the asked block), reports exactly the validators active in that epoch with their registry indices and fields, and a remembered answer is that of the same epoch.",
 ["inputs","histories"],"all epochs, registries and request sequences",
 "Tests use registries in which every validator is active in every epoch.",
 [H+"input_reader/host_input_reader.rs",H+"conversions.rs"],[("answers",H+"input_reader/host_input_reader.rs impl InputReader")],obs=["HostInputReader"])
p("H12","Beacon state containers are laid out as the consensus specification says",
 "The beacon state containers the host decodes, hashes and proves from (Electra and Fulu, and the parameters of the earlier forks) have the fields, in the order, with the element types and list limits, that the mainnet consensus specification gives them.",
 ["inputs"],"all beacon states",
 "The fixtures and generators use the same containers on both sides, so a swapped field is invisible to tests.",
 [H+"beacon_state.rs"],[("containers",H+"beacon_state.rs electra/fulu/mainnet")],obs=["BeaconState"])
p("H13","The build-input command writes the input and journal of one rehearsed transition",
 "An input is prepared from the boundary state of the epoch asked for only if the block at that state's slot commits to that very state, and comes with the pre-state it starts from and the post-state and slot its rehearsal ended in; build-input writes, to files named after that epoch, the framed bytes of that input and the journal of that same pre-state, post-state and slot.",
 ["inputs","configurations"],"all epochs, node answers and continuous runs",
 "No test drives the command line.",
 [H+"bin/zkasper_cli.rs"],[("input preparation",H+"bin/zkasper_cli.rs prepare_input"),("file output",H+"bin/zkasper_cli.rs main")],obs=["zkasper_cli build-input"])
p("X01","Forging attestations or proofs is computationally infeasible",
 "No efficient adversary can produce a signature or Merkle proof the verifier accepts for data that honest validators did not sign or that is not in the committed tree.",
 ["inputs"],"all efficient adversaries","Cryptographic hardness is not testable.",[V,MP],[("SHA-256 and BLS12-381 libraries","dependencies")])
p("X02","The accepted finality threshold covers effective-balance drift",
 "The safety margin in the configured threshold is at least the stake that can change, through unobserved deposits, slashings and balance updates, between the trusted state and the lookahead horizon.",
 ["inputs","configurations"],"all chain evolutions within the lookahead","Needs an economic model of the chain over all histories.",[CF,V],[("threshold margin",CF)])
p("X03","The host eventually produces an input when the chain finalizes",
 "If the chain finalizes a new checkpoint within the lookahead and the node serves the data, the host's sync loop eventually produces a verifying input for it.",
 ["schedules","fault_sequences"],"all chain progress and node behaviours","Liveness under unbounded external behaviour is not sampled by any test.",[H+"input_reader/host_input_reader.rs",H+"bin/zkasper_cli.rs"],[("sync loop",H+"bin/zkasper_cli.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

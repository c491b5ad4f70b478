"""Registry: property -> obligations. An obligation is ('eq', code path, reference path, cuts) - the two functions must have the
same acceptance condition, the same result and the same effects for every input - or ('rule', function) - a rule over the facts."""
import interp,rules
from terms import fld,app
M='ssz_multiproofs::multiproof::Multiproof::'; S='specs_mp::'
MP=['models','specs_mp']
HINT=('ssz_multiproofs::multiproof::calculate_max_stack_depth',)
def eq(code,spec,cuts=(),**kw): return dict(kind='eq',code=code,spec=spec,cuts=tuple(cuts),**kw)
C='specs_core::state::'; CORE=['models','specs_core']
KS='z_core::consensus_state::ConsensusState'
V='specs_core::verify::'
VCUT=('z_core::attestation::get_attesting_indices','z_core::committee_cache::CommitteeCache::initialized','z_core::input_reader::InputReader::get_seed')
G='specs_core::guest::'
def g(n,*fields): return dict(pkgs=CORE+['z-core','ssz-multiproofs'],obl=[eq(G+'g_code',G+'g_spec',('ssz_multiproofs::multiproof::Multiproof::calculate_root',),opts=dict(proofs=True),imp=G+n+'_spec',impparts=('accept','payload'),fields=fields)])
Q='specs_guest::'; GUEST=['models','z-core','beacon_guest','chainspec','specs_guest']
GR='<z_core::input_reader::guest_input_reader::GuestInputReader<E> as z_core::input_reader::InputReader>::consensus_state'
GE=dict(opts=dict(redirect={'z_core::input_reader::guest_input_reader::GuestInput::into_reader':Q+'into_reader_contract',GR:Q+'consensus_state_contract'},
  effects=(r'::env::(read|commit|write)',r'^beacon_guest::entry$'),world=(r'::env::read',)),state=dict(journal=lambda S:S.st.get('!log',interp.LOG0)))
def guest(code,spec,cuts=(),**kw): return eq(code,Q+spec,cuts,**GE,**kw)
SPECS=('chainspec::mainnet_spec','chainspec::sepolia_spec')
CHECKS={
 'M01':dict(pkgs=MP,obl=[eq(M+'verify',S+'m01_verify')]),
 'M02':dict(pkgs=MP,obl=[eq(M+'calculate_root',S+'m02_root')]),
 'M03':dict(pkgs=MP,obl=[eq(S+'m03_code',S+'m03_spec')]),
 'M04':dict(pkgs=MP,obl=[eq(S+'m04_code',S+'m04_spec'),eq(S+'m04_get_code',S+'m04_get'),eq(S+'m04_next_code',S+'m04_next'),eq(S+'m04_next2_code',S+'m04_next2'),eq(S+'m04_mix_code',S+'m04_mix')]),
 'M05':dict(pkgs=MP,obl=[eq(S+'m05_code',S+'m05_sized',alts=[[eq(S+'m05_code',S+'m05_spec',HINT),eq(HINT[0],S+'m05_depth',parts=('covers',),alts=[[eq(HINT[0],S+'m05_depth_leaf',parts=('covers',))]])]]
  +[[eq(S+'m05_code',S+'m05_sized_'+x)] for x in ('first','lookup','both')])]),
 'C01':dict(pkgs=CORE,obl=[eq(C+'c01_code',C+'c01_spec'),eq(C+'c01_decode_code',C+'c01_decode_spec',parts=('accept','payload','total')),dict(kind='ensures',type=KS,post=C+'c01_post')]),
 'C02':dict(pkgs=CORE,obl=[eq(C+'c02_code',C+'c02_spec',parts=('accept','payload','total'))]),
 'C03':dict(pkgs=CORE,obl=[eq(C+'c03_sound',C+'always',parts=('accept','total')),eq(C+'c03_code',C+'c03_spec')]),
 'C04':dict(pkgs=CORE,obl=[eq(C+'c04_state_code',C+'c04_state_spec'),eq(C+'c04_journal_code',C+'c04_journal_spec'),eq(C+'c04_back_code',C+'c04_back_spec'),eq(C+'c04_size_code',C+'c04_size_spec')]),
 'V01':dict(pkgs=CORE,obl=[eq(V+'v_code',V+'v_spec',VCUT,imp=V+'v01_spec'),eq(V+'v01_total_code',V+'v01_total_spec')]),
 'V02':dict(pkgs=CORE,obl=[eq(V+'v_code',V+'v_spec',VCUT,imp=V+'v02_spec')]),
 'V03':dict(pkgs=CORE,obl=[eq(V+'v_code',V+'v_spec',VCUT,imp=V+'v03_verify_spec'),eq(V+'v03_code',V+'v03_spec',('z_core::committee_cache::CommitteeCache::get_beacon_committee',))]),
 'V04':dict(pkgs=CORE,obl=[eq(V+'v_code',V+'v_spec',VCUT,imp=V+'v04_spec',impparts=('accept','payload'))]),
 'V05':dict(pkgs=CORE,obl=[eq(V+'v_code',V+'v_spec',VCUT,imp=V+'v05_spec'),eq(V+'v05_init_code',V+'v05_init_spec'),eq(V+'v05_get_code',V+'v05_get_spec'),eq(V+'v05_seed_code',V+'v05_seed_spec')]),
 'V06':dict(pkgs=CORE,obl=[eq(V+'v06_pos_code',V+'v06_pos_spec'),eq(V+'v06_slot_code',V+'v06_slot_spec',('z_core::committee_cache::CommitteeCache::get_beacon_committee',)),eq(V+'v06_counts_code',V+'v06_counts_spec')]),
 'G01':g('g01',0,1,5,7),
 'G02':g('g02'),
 'G03':g('g03',0),
 'G04':g('g04',2),
 'G05':g('g05',2),
 'G06':dict(pkgs=CORE+GUEST+['ssz-multiproofs'],obl=[guest('beacon_guest::entry','g06_spec',('z_core::verify::verify',Q+'admits'),imp=Q+'g06_core'),g('g00',5)['obl'][0]]),
 'G07':g('g07',6),
 'G08':g('g08',2),
 'N01':dict(pkgs=GUEST,obl=[guest('mainnet::main','n01_mainnet',SPECS+('beacon_guest::entry',)),guest('sepolia::main','n01_sepolia',SPECS+('beacon_guest::entry',)),eq('chainspec::mainnet_spec',Q+'n01_mainnet_spec'),eq('chainspec::sepolia_spec',Q+'n01_sepolia_spec')]),
 'N02':dict(pkgs=GUEST,obl=[eq(Q+'n02_code',Q+'always'),dict(kind='ensures',type='z_core::config::Config',post=Q+'n02_post')]),
 'N03':dict(pkgs=CORE,obl=[dict(kind='codec',root='z_core::input_reader::guest_input_reader::GuestInput'),dict(kind='codec',root='z_core::config::Config')]
   +[eq('<z_core::serde_utils::%s as serde_with::%sAs<%s>>::%s_as'%(c,k,t,k.lower()),'specs_core::codec::%s_%s'%(k[:3].lower().replace('ser','enc').replace('des','dec'),n))
     for c,t,n in (('U64','beacon_types::Epoch','epoch'),('U64','beacon_types::Slot','slot'),('UncompressedPublicKey','bls::PublicKey','key'),('DiskAttestation','beacon_types::Attestation<E>','att')) for k in ('Serialize','Deserialize')]),
}
HC='specs_host::client::'; HP='specs_host::provider::'; HI='specs_host::reader::'; HOST=['models','z-core','host','ssz-multiproofs','chainspec','specs_host']
BC='host::beacon_client::BeaconClient::'; BCR='<host::beacon_client::BeaconClient as host::chain_reader::ChainReader>::'
SP='host::state_provider::'; PSP=lambda t: '<%s as host::state_provider::StateProvider>::'%(SP+t)
FP=SP+'file_provider::FileProvider::'; PAP=SP+'persistant_api_provider::PersistentApiStateProvider::'
FS=dict(opts=dict(effects=(r'^std::fs::(write|rename|remove_|create_dir|copy|hard_link)',r'^std::fs::(File|OpenOptions)::(create|open|set_|sync|options)',r'::Write::write'),world=(r'^std::fs::(read|metadata|exists)',r'^std::path::Path::(exists|is_|try_exists|metadata|read_dir)')),state=dict(files=lambda S:S.st.get('!log',interp.LOG0)))
CHECKS.update({
 'H01':dict(pkgs=HOST,obl=[eq(PSP('cache_provider::CacheStateProvider<P>')+'state_at_slot',HP+'h01_cache'),eq(PSP('cache_provider::CacheStateProvider<P>')+'genesis_validators_root',HP+'h01_cache_genesis'),
   eq(PSP('file_provider::FileProvider<E>')+'state_at_slot',HP+'h01_file',**FS),eq(FP+'save_state',HP+'h01_save',**FS),eq(PSP('persistant_api_provider::PersistentApiStateProvider<E>')+'state_at_slot',HP+'h01_api',**FS)]),
 'H02':dict(pkgs=HOST,obl=[eq(FP+'clear_states_before',HP+'h02_clear',**FS),eq(PAP+'clear_states_before',HP+'h02_clear_api',**FS)]),
 'H05':dict(pkgs=HOST,obl=[eq(BC+'get_block_header',HC+'h05_header'),eq(BC+'get_block',HC+'h05_block'),eq(BCR+'get_block_header',HC+'h05_reader_header'),eq(BCR+'get_block',HC+'h05_block')]),
 'H06':dict(pkgs=HOST,obl=[eq(BC+'get_beacon_state',HC+'h06_state')]),
 'H10':dict(pkgs=HOST,obl=[eq(SP+'StateProvider::'+n,HP+s) for n,s in (('state_at_epoch','h10_epoch'),('state_at_epoch_boundary','h10_boundary'),('state_at_checkpoint','h10_checkpoint'),('genesis_validators_root','h10_genesis'))]),
})
HR='host::input_reader::host_input_reader::'; HRT='HostInputReader<E, P, CR>'
HIR='<%s%s as z_core::input_reader::InputReader>::'%(HR,HRT)
TL=('z_core::consensus_state::ConsensusState::transition_link',); SAT=dict(opts=dict(satop=True))
CELLS=dict(opts=dict(satop=True),state=dict(cache=interp.cells))
BTY=lambda a,b: '<ethereum_consensus::%s as host::conversions::TryAsBeaconType<%s>>::try_as_beacon_type'%(a,b)
HS='specs_host::state::'
CHECKS['H06']['obl']+=[eq(HS+'decode_code',HS+'decode_spec'),eq(HS+'version_code',HS+'version_spec')]
CHECKS.update({
 'H04':dict(pkgs=HOST,obl=[eq(HR+'collect_attestations_for_links',HI+'h04_collect',**SAT)]),
 'H07':dict(pkgs=HOST,obl=[eq(BTY('electra::Attestation<MAX_VALIDATORS_PER_SLOT, MAX_COMMITTEES_PER_SLOT>','beacon_types::Attestation<E>'),HI+'h07_attestation'),
   eq(BTY('phase0::AttestationData','beacon_types::AttestationData'),HI+'h07_data'),eq(BTY('phase0::Checkpoint','beacon_types::Checkpoint'),HI+'h07_checkpoint'),
   eq(BTY('phase0::Validator','z_core::ValidatorInfo'),HI+'h07_validator')]+
   [eq(HS+x+'_code',HS+x+'_spec') for x in 'genesis slot fork header state_roots historical validators balances mixes prev_justified justified finalized prev_atts atts prev_part part version'.split()]),
 'H09':dict(pkgs=HOST,obl=[eq(HR+'find_finalization_epoch',HI+'h09_find',**SAT),eq(HR+'get_justifications_until_new_finality',HI+'h09_chain',TL,**SAT),
   eq(HI+'h09_new_code',HI+'h09_new',TL,**SAT),eq(BC+'get_finality_checkpoints',HC+'h09_checkpoints'),eq(BCR+'get_consensus_state',HC+'h09_consensus')]),
 'H11':dict(pkgs=HOST,obl=[eq(HIR+'fork',HI+'h11_fork'),eq(HIR+'randao_mix',HI+'h11_mix'),eq(HIR+'slot_for_block',HI+'h11_slot'),eq(HIR+'consensus_state',HI+'h11_state'),
   eq(HIR+'genesis_validators_root',HI+'h11_root'),eq(HIR+'chain_spec',HI+'h11_spec'),eq('<%s%s as host::state_provider::StateProvider>::state_at_slot'%(HR,HRT),HI+'h11_provider'),
   eq(HI+'h11_atts_code',HI+'h11_atts'),eq(HI+'h11_active_code',HI+'h11_active',('host::beacon_state::BeaconState::validators',),**CELLS)]),
 'H12':dict(pkgs=HOST,obl=[dict(kind='layout',anchor=HS+'layout',arg=1,want='ANY'),dict(kind='layout',anchor=HS+'layout',arg=2,want='ELECTRA'),dict(kind='layout',anchor=HS+'layout',arg=3,want='FULU')]),
})
PF='host::input_reader::preflight_input_reader::'; PFT='PreflightInputReader<SR, CR>'; PIR='<%s%s as z_core::input_reader::InputReader>::'%(PF,PFT); HF='specs_host::preflight::'
MPB=('ssz_multiproofs::builder::MultiproofBuilder::build','ssz_multiproofs::multiproof::Multiproof::verify','host::state_provider::StateProvider::state_at_checkpoint')
CHECKS['H03']=dict(pkgs=HOST,obl=[eq(HF+'h03_active_code',HF+'h03_active',**CELLS),eq(PIR+'randao_mix',HF+'h03_mix',**CELLS),eq(PIR+'slot_for_block',HF+'h03_slot',**CELLS),
   eq(PIR+'fork',HF+'h03_fork',**CELLS),eq(PIR+'consensus_state',HF+'h03_state',**CELLS),eq(PIR+'genesis_validators_root',HF+'h03_root',**CELLS),eq(PIR+'chain_spec',HF+'h03_spec',**CELLS),
   eq(HF+'h03_atts_code',HF+'h03_atts',**CELLS),eq(PF+'PreflightInputReader::to_input',HF+'h03_input',MPB,**SAT),
   eq('host::state_patch_builder::StatePatchBuilder::build',HF+'h03_patch_build')]+[eq(HF+x+'_code',HF+x,('host::beacon_state::BeaconState::validators',)) for x in ('h03_patch_new','h03_patch_mix','h03_patch_diff')])
ZC='zkasper_cli::'; HZ='specs_host::cli::'; VC=('z_core::verify::verify','z_core::input_reader::guest_input_reader::GuestInput::into_reader')
PRC=('z_core::verify::verify',HR+'HostInputReader::new',PF+'PreflightInputReader::to_input',BC+'get_block',BC+'get_block_header','host::state_provider::StateProvider::state_at_epoch_boundary')
CHECKS['H08']=dict(pkgs=HOST,obl=[eq(ZC+'run_verify',HZ+'h08_verify',VC),eq(ZC+'execute_guest_program',HZ+'n01_program'),eq(ZC+'encode_input_stdin',HZ+'h08_frame')])
def calls(code,cuts,ctx,rule,**cl): return dict(kind='calls',code=code,cuts=tuple(cuts),ctx=ctx,rule=rule,calls=cl)
NET=(('field','network'),)
CHECKS['N01']['pkgs']=sorted(set(CHECKS['N01']['pkgs'])|set(HOST))
CHECKS['N01']['obl']+=[eq(ZC+'config_for',HZ+'n01_config'),eq(ZC+'execute_guest_program',HZ+'n01_program'),
   calls(ZC+'main',(ZC+'prepare_input',ZC+'run_verify'),NET,'the network asked for',prepare_input=('prepare_input$',HZ+'n01_prepare'),run_verify=('run_verify$',HZ+'n01_verify'))]
CHECKS['H08']['obl']+=[calls(ZC+'main',(ZC+'prepare_input',ZC+'run_verify'),(),'the input and pre-state of one preparation',run_verify=('run_verify$',rules.related(ZC+'prepare_input',{2:'0',1:'1'})))]
JN='z_core::abi::Journal::'; F0=lambda r,*n: [fld(r,x) for x in n]
WR={'_stdin.bin':lambda r: [fld(app(ZC+'encode_input_stdin',fld(r,'0')),'0','Ok')],'_journal.bin':lambda r: [app(JN+'encode',app(JN+'new',fld(r,'1'),fld(r,'2'),fld(r,'3')))]}
CHECKS['H13']=dict(pkgs=HOST,obl=[eq(ZC+'prepare_input',HZ+'h08_prepare',PRC),eq(ZC+'encode_input_stdin',HZ+'h08_frame'),
   calls(ZC+'main',(ZC+'prepare_input',ZC+'run_verify',ZC+'encode_input_stdin',JN+'new',JN+'encode'),(),'the framed input or the journal of what was prepared for the epoch',write=('Write::write_all$|^std::fs::write$',rules.written(WR,ZC+'prepare_input')))])
CHECKS['H01']['obl'][0].update(state=dict(cache=interp.cells))
NOT_APPLICABLE={
 'X01':'Computational hardness of SHA-256 and BLS is a probabilistic statement about adversaries; no static argument over the source reaches it. The code-level side (hashes and signatures are computed over the right data) is M01-M02 and V02.',
 'X02':'Whether 85/100 or 70/100 of the tracked stake covers balance drift depends on the chain\'s runtime history of effective balances; the code holds only the constant (N02) and the comparison (V01).',
 'X03':'Liveness against external beacon nodes and the chain\'s own finality is decided by runtime behaviour outside the source.',
}

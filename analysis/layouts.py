"""Container layouts of the consensus specifications (mainnet preset), as field name + element type, in order. The order and the
types decide both the SSZ encoding and the Merkle tree of a container. Types are written as the repository's SSZ library names
them, by last path segment; integers of the same width (usize is 64 bits here) are the same encoding."""
ROOT='B32'
HIST,HROOTS,VOTES,REG,RANDAO,SLASH,SYNC,BLOOM,EXTRA=8192,16777216,2048,1099511627776,65536,8192,512,256,32
PDEP,PWITH,PCONS,LOOKAHEAD=134217728,134217728,262144,64
ELECTRA=[
 ('genesis_time','u64'),('genesis_validators_root',ROOT),('slot','u64'),('fork','Fork'),('latest_block_header','BeaconBlockHeader'),
 ('block_roots','Vector<%s, %d>'%(ROOT,HIST)),('state_roots','Vector<%s, %d>'%(ROOT,HIST)),('historical_roots','List<%s, %d>'%(ROOT,HROOTS)),
 ('eth1_data','Eth1Data'),('eth1_data_votes','List<Eth1Data, %d>'%VOTES),('eth1_deposit_index','u64'),
 ('validators','List<Validator, %d>'%REG),('balances','List<u64, %d>'%REG),('randao_mixes','Vector<B32, %d>'%RANDAO),('slashings','Vector<u64, %d>'%SLASH),
 ('previous_epoch_participation','List<u8, %d>'%REG),('current_epoch_participation','List<u8, %d>'%REG),('justification_bits','Bitvector<4>'),
 ('previous_justified_checkpoint','Checkpoint'),('current_justified_checkpoint','Checkpoint'),('finalized_checkpoint','Checkpoint'),
 ('inactivity_scores','List<u64, %d>'%REG),('current_sync_committee','SyncCommittee<%d>'%SYNC),('next_sync_committee','SyncCommittee<%d>'%SYNC),
 ('latest_execution_payload_header','ExecutionPayloadHeader<%d, %d>'%(BLOOM,EXTRA)),('next_withdrawal_index','u64'),('next_withdrawal_validator_index','u64'),
 ('historical_summaries','List<HistoricalSummary, %d>'%HROOTS),('deposit_requests_start_index','u64'),('deposit_balance_to_consume','u64'),
 ('exit_balance_to_consume','u64'),('earliest_exit_epoch','u64'),('consolidation_balance_to_consume','u64'),('earliest_consolidation_epoch','u64'),
 ('pending_deposits','List<PendingDeposit, %d>'%PDEP),('pending_partial_withdrawals','List<PendingPartialWithdrawal, %d>'%PWITH),
 ('pending_consolidations','List<PendingConsolidation, %d>'%PCONS)]
FULU=ELECTRA+[('proposer_lookahead','Vector<u64, %d>'%LOOKAHEAD)]
_D=(HIST,HROOTS,VOTES,REG,RANDAO,SLASH,2048)
FORKS=[('Phase0',('phase0',)+_D+(4096,)),('Altair',('altair',)+_D+(SYNC,)),('Bellatrix',('bellatrix',)+_D+(SYNC,BLOOM,EXTRA)),('Capella',('capella',)+_D+(SYNC,BLOOM,EXTRA)),
 ('Deneb',('deneb',)+_D+(SYNC,BLOOM,EXTRA)),('Electra',('electra',)+_D+(SYNC,BLOOM,EXTRA,PDEP,PWITH,PCONS)),('Fulu',('fulu',)+_D+(SYNC,BLOOM,EXTRA,PDEP,PWITH,PCONS,LOOKAHEAD))]
ANY=[(v,'%s::BeaconState<%s>'%(a[0],', '.join(map(str,a[1:])))) for v,a in FORKS]
# the library's own names for containers of the same shape
SAME={'DepositReceipt':'PendingDeposit','usize':'u64','Bytes32':'B32'}
def render(t,depth=0):
    k=t[0]
    if k in('const','prim'): return SAME.get(str(t[1]),str(t[1]))
    if k=='adt':
        seg=t[1].split('::'); n=seg[-1]; n=SAME.get(n,n)
        if n=='FixedBytes' and t[2] and t[2][0]==('const','32'): return 'B32'
        if n=='BeaconState': n=seg[-2]+'::'+n
        return n+('<%s>'%', '.join(render(x) for x in t[2]) if t[2] else '')
    if k=='array': return '[%s; %s]'%(render(t[1]),t[2])
    return str(t)
# containers the repository defines itself: element types in order (the names may differ: index/slot)
CONTAINERS={'PendingDeposit':[('public_key','Vector<u8, 48>'),('withdrawal_credentials','B32'),('amount','u64'),('signature','Vector<u8, 96>'),('slot','u64')],
 'PendingPartialWithdrawal':[('validator_index','u64'),('amount','u64'),('withdrawable_epoch','u64')],'PendingConsolidation':[('source_index','u64'),('target_index','u64')]}
def mismatches(rows,want):
    """a field of another name is accepted in place of the specified one if no field of the container bears that name and the types agree"""
    bad=[]; known={n for n,_ in want}
    for i in range(max(len(rows),len(want))):
        x=rows[i] if i<len(rows) else None; y=want[i] if i<len(want) else None
        if x!=y and not (x and y and x[1]==y[1] and x[0] not in known): bad.append('position %d: code %s, specification %s'%(i,x,y))
    return bad
PLAIN={'BlsPublicKey':'Vector<u8, 48>','BlsSignature':'Vector<u8, 96>'}
def nested(w,t,out):
    if t[0]=='adt':
        a=w.adts.get(t[1])
        if a and a['local'] and a['crate']=='host' and t[1] not in out and a['kind']=='struct':
            n=t[1].split('::')[-1]; sub=dict(zip(a['generics'],t[2])); rows=[]
            out[t[1]]=(SAME.get(n,n),rows)
            for fn,ft in a['variants'][0]['fields']:
                x=w.ty(a['crate'],ft,sub); r=render(x); rows.append((fn,PLAIN.get(r,r))); nested(w,x,out)
        for x in t[2]: nested(w,x,out)
    elif t[0] in('ref','slice','array'): nested(w,t[1],out)
def subcontainers(w,anchor,i):
    b=w.bodies[anchor]; t=w.ty(b.crate,b.locals[i][0])
    while t[0]=='ref': t=t[1]
    out={}; nested(w,t,out); out.pop(t[1],None)
    return out
def actual(w,anchor,i):
    b=w.bodies[anchor]; t=w.ty(b.crate,b.locals[i][0])
    while t[0]=='ref': t=t[1]
    a=w.adts[t[1]]; sub=dict(zip(a['generics'],t[2]))
    rows=lambda v: [(n,render(w.ty(a['crate'],ft,sub)) if ft is not None else '?') for n,ft in v['fields']]
    if a['kind']=='enum': return t[1],[(v['name'],rows(v)[0][1] if len(v['fields'])==1 else '?') for v in a['variants']]
    return t[1],rows(a['variants'][0])

import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/analysis')
import checks
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA=checks.NOT_APPLICABLE
out=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in checks.CHECKS:
        c=checks.CHECKS[i]
        out['checks'].append(dict(property=i,quick_cmd='python3 check.py '+i,thorough_cmd='python3 check.py '+i,technique=c.get('technique','static value-graph equivalence (MIR dataflow) against a reference function'),level='other',level_note=c.get('note','For every input: acceptance, result and effects equal those of the reference. Trusted: the MIR dumper, the abstract interpreter, the models of std and dependency operations, the shims standing in for uncached dependencies.')))
    else: out['not_applicable'].append(dict(property=i,reason=NA.get(i,'check not built yet')))
json.dump(out,open(V+'/MANIFEST.json','w'),indent=1)

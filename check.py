#!/usr/bin/env python3
"""check.py ID: decides one property from /repo's current source (no repository code is run)."""
import sys,os,json,time,subprocess,traceback,re,hashlib
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V+'/analysis')
sys.setrecursionlimit(200000)
import threading; threading.stack_size(512*1024*1024)
REPO=os.environ.get('SIG_REPO','/repo'); FACTS=os.environ.get('SIG_FACTS',V+'/build/facts')
class Failure: pass
def build(pkgs):
    """rebuild the facts; returns (ok, infrastructure problem?, text)"""
    r=subprocess.run(['bash',V+'/tools/facts.sh',FACTS]+pkgs,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return r.returncode,r.stdout
def key_of(o,w):
    return re.sub(r':\d+(:\d+)?','',o)
def main():
    pid=sys.argv[1]; t0=time.time(); tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    import checks
    C=checks.CHECKS[pid]; viol=[]; ev=[]; notes=[]
    rc,out=build(C['pkgs'])
    if rc!=0:
        errs=re.findall(r'(?ms)^error.*?(?=^\S|\Z)',out); rep=[e for e in errs if '--> '+REPO in e]
        if not rep:
            print(out[-4000:]); print('facts could not be built'); sys.exit(2)
        viol.append(('build',"the tree uses something outside the analysed API, so the property is not established",''.join(rep)[:6000],[]))
    if not viol:
        import interp,equiv
        w=interp.World([FACTS])
        for o in C['obl']:
            t=time.time()
            try:
                import rules
                e=rules.run(o,w,viol,REPO)
            except Exception as x:
                viol.append((o.get('code') or o.get('name'),'undecided: %s: %s'%(type(x).__name__,x),traceback.format_exc()[-3000:],[])); e=dict(obligation=o.get('code') or o.get('name'),verdict='undecided')
            e['seconds']=round(time.time()-t,3); ev.append(e)
    known=[]; kf=V+'/known_findings.txt'
    for l in open(kf) if os.path.exists(kf) else []:
        m=re.match(r'known: property=(\S+) key=(\S+) (.*)',l)
        if m and m.group(1)==pid: known.append((m.group(2),m.group(3)))
    new=[]; shown=set()
    for v in viol:
        k=[x for x in known if x[0]==v[0]]
        if k: shown.add(k[0])
        else: new.append(v)
    for k in sorted(shown): print('KNOWN-FINDING: property=%s %s: %s'%(pid,k[0],k[1]))
    os.makedirs(V+'/evidence',exist_ok=True)
    rp='build/replay/%s.txt'%pid; os.makedirs(V+'/build/replay',exist_ok=True)
    if new:
        with open(V+'/'+rp,'w') as f:
            for k,m,d,sp in new:
                f.write('%s\n  %s\n'%(k,m))
                for s in sp: f.write('  at %s\n'%s)
                f.write(d+'\n\n')
    elif os.path.exists(V+'/'+rp): os.unlink(V+'/'+rp)
    n=len(ev); ok=sum(1 for e in ev if e.get('verdict')=='holds')
    cov=dict(explanation=C.get('how') or 'MIR of the listed functions (with everything they call) is abstracted into a canonical gated value graph and compared, for all inputs at once, with the value graph of the reference function; loops are closed to canonical fold terms, joins are BDD-gated. No code is run.',
        obligations=ev,obligations_total=n,obligations_held=ok,functions_analysed=sorted({f for e in ev for f in e.get('functions',())}),
        call_sites=sum(e.get('calls',0) for e in ev))
    for e in ev: e.pop('functions',None)
    json.dump(dict(property=pid,tier=tier,seed=seed,level='other',coverage=cov,wall_s=round(time.time()-t0,3),
        assumptions=C.get('assumes',['the primitive models of std/itertools/sha2 operations in analysis/prims.py and models/src describe those operations','integers do not reach 2^64 where a container length is involved']),
        violations=[dict(key=k,message=m,spans=sp) for k,m,d,sp in new]),open(V+'/evidence/%s.json'%pid,'w'),indent=1)
    if new:
        for k,m,d,sp in new:
            print('%s: %s'%(k,m)); 
            for s in sp[:6]: print('   at',s)
        print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
    print('%s: %d obligations hold (%.1fs)'%(pid,ok,time.time()-t0)); return 0
RC=[2]
def run():
    try: RC[0]=main()
    except SystemExit as e: RC[0]=e.code
    except: traceback.print_exc()
t=threading.Thread(target=run); t.start(); t.join(); sys.stdout.flush(); os._exit(RC[0] or 0)

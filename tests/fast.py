"""Development harness, parallel: fast.py FILE.py [filter] [workers]. Applies each variant to its own copy, builds the facts once and decides all listed properties in one process."""
import sys,os,subprocess,shutil,importlib.util,json
from concurrent.futures import ThreadPoolExecutor
import queue
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONE='''
import sys,json,traceback,threading; threading.stack_size(512*1024*1024); sys.path.insert(0,%r+'/analysis'); sys.setrecursionlimit(200000)
def main():
    import interp,rules,checks
    w=interp.World([sys.argv[1]]); out={}
    for i in sys.argv[3:]:
        viol=[]
        for o in checks.CHECKS[i]['obl']:
            try: rules.run(o,w,viol,sys.argv[2])
            except Exception as e: viol.append((o.get('code') or o.get('name') or o['kind'],'undecided %%r'%%e,traceback.format_exc()[-1500:],[]))
        out[i]=[(v[0],v[1],v[2][:3000]) for v in viol]
    print('@@'+json.dumps(out))
t=threading.Thread(target=main); t.start(); t.join()
'''%V
def main():
    sp=importlib.util.spec_from_file_location('v',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    sys.path.insert(0,V+'/analysis'); import checks
    flt=sys.argv[2] if len(sys.argv)>2 else ''; nw=int(sys.argv[3]) if len(sys.argv)>3 else 6
    q=queue.Queue()
    for k in range(nw):
        b=os.environ.get('FAST_BASE','/tmp/variants')+'/w%d'%k; os.makedirs(b,exist_ok=True); q.put(b)
        if not os.path.exists(b+'/ws'): subprocess.run(['cp','-a',V+'/build/ws',b+'/ws'],check=True)
    bad=[0]
    def job(it):
        n,(exp,ids,eds)=it; base=q.get()
        try:
            tree=base+'/repo'; shutil.rmtree(tree,ignore_errors=True); subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s'%(tree,tree),shell=True,check=True)
            for f,o,nw_ in eds:
                p=tree+'/'+f; s=open(p).read()
                if o not in s: bad[0]+=1; print(n,'EDIT DOES NOT APPLY:',o[:80],flush=True); return
                open(p,'w').write(s.replace(o,nw_,1))
            env=dict(os.environ,SIG_REPO=tree,SIG_WS=base+'/ws'); pk=sorted({p for i in ids for p in checks.CHECKS[i]['pkgs']})
            r=subprocess.run(['bash',V+'/tools/facts.sh',base+'/facts']+pk,env=env,capture_output=True,text=True)
            if r.returncode: res={'build':[('build',r.stdout[-1500:]+r.stderr[-3000:],'')]}
            else:
                r=subprocess.run(['python3','-c',ONE,base+'/facts',tree]+ids,capture_output=True,text=True)
                l=[x for x in r.stdout.splitlines() if x.startswith('@@')]
                res=json.loads(l[0][2:]) if l else {'crash':[('crash',r.stderr[-2000:],'')]}
        finally: q.put(base)
        hit=[i for i in res if res[i]]; err='build' in res or 'crash' in res
        exp_ids=ids if exp=='bug' else []
        ok=not err and (bool(set(hit)&set(exp_ids)) if exp=='bug' else not hit); bad[0]+=not ok
        s='%-26s %-5s %s %s'%(n,exp,'ok ' if ok else 'WRONG',hit)
        if not ok:
            for i in res:
                for v in res[i][:2]: s+='\n    %s: %s %s\n        %s'%(i,v[0],v[1][:1500],v[2].replace('\n','\n        ')[:2500])
        print(s,flush=True)
    its=[x for x in m.V.items() if (x[1][0]==flt if flt in('keep','bug') else flt in x[0])]
    with ThreadPoolExecutor(nw) as ex: list(ex.map(job,its))
    print('wrong:',bad[0])
main()

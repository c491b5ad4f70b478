"""Development harness: applies edits to a copy of /repo and runs checks on it. variants.py FILE.py [filter] - FILE defines V={name:(expect,[ids],[(file,old,new)...])}."""
import sys,os,subprocess,shutil,importlib.util
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    sp=importlib.util.spec_from_file_location('v',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    flt=sys.argv[2] if len(sys.argv)>2 else ''
    base='/tmp/variants.%d'%os.getpid() if len(sys.argv)>3 else '/tmp/variants'
    os.makedirs(base,exist_ok=True); tree=base+'/repo'; bad=0
    for n,(exp,ids,eds) in m.V.items():
        if flt and flt not in n: continue
        shutil.rmtree(tree,ignore_errors=True); subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s'%(tree,tree),shell=True,check=True)
        for f,o,nw in eds:
            p=tree+'/'+f; s=open(p).read()
            if o not in s: print(n,'EDIT DOES NOT APPLY:',o[:80]); bad+=1; continue
            open(p,'w').write(s.replace(o,nw,1))
        env=dict(os.environ,SIG_REPO=tree,SIG_WS=base+'/ws',SIG_FACTS=base+'/facts'); res=[]; txt=''
        for i in ids:
            r=subprocess.run(['python3',V+'/check.py',i],env=env,capture_output=True,text=True); res.append((i,r.returncode)); txt+=r.stdout+r.stderr
        caught=any(c==1 for i,c in res); err=any(c not in(0,1) for i,c in res)
        okk=not err and caught==(exp=='bug'); bad+=not okk
        print('%-28s %-5s %s %s'%(n,exp,'ok ' if okk else 'WRONG',res),flush=True)
        if not okk: print('\n'.join('     '+l[:400] for l in txt.splitlines()[-30:]),flush=True)
    print('wrong:',bad)
main()

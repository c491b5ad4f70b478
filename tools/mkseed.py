"""Dev tool: make /verif/seeded/<id> from an edit list and a demo; confirm it in a scratch copy of /repo.
usage: mkseed.py SPEC.py [ids]   SPEC defines S={id:dict(prop,needs,breaks,edits=[(file,old,new)],kind,demo=rust source)}"""
import sys,os,json,subprocess,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
    ns={}; sys.path.insert(0,os.path.dirname(os.path.abspath(sys.argv[1])))
    exec(open(sys.argv[1]).read(),ns); S=ns['S']
    for i in (sys.argv[2:] or S):
        s=S[i]; d=f'{V}/seeded/{i}'; tmp='/tmp/mkseed'
        sh(f'/bin/rm -rf {tmp}; mkdir {tmp}; git -C /repo worktree prune; git -C /repo archive HEAD | tar x -C {tmp}; cd {tmp}; git init -q; git add -A; git -c user.name=a -c user.email=a@b commit -qm x')
        ok=True
        for f,a,b in s['edits']:
            p=f'{tmp}/{f}'; t=open(p).read()
            if t.count(a)!=1: print(i,'EDIT',t.count(a),repr(a[:60])); ok=False; continue
            open(p,'w').write(t.replace(a,b))
        if not ok: continue
        os.makedirs(d,exist_ok=True)
        open(f'{d}/patch.diff','w').write(sh(f'git -C {tmp} diff').stdout)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(f'{d}/meta.json','w'),indent=1)
        src=s.get('kind','mp'); K=f'{V}/tools/demo_{src}'
        for f in os.listdir(K):
            if os.path.isdir(f'{K}/{f}'): shutil.copytree(f'{K}/{f}',f'{d}/{f}',dirs_exist_ok=True)
            else: shutil.copy(f'{K}/{f}',d)
        open(f'{d}/main.rs','w').write(s['demo'])
        sh(f'/bin/rm -rf {tmp}')
        if '--noconfirm' in os.environ.get('MKSEED',''): continue
        # confirm: on the unchanged tree and with the patch (in /repo itself, undone straight afterwards)
        r0=sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
        a=sh(f'git -C /repo apply {d}/patch.diff')
        try:
            b=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mkseed.json && grep -c test_gindex_iterator /tmp/mkseed.json')
            r1=sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
            c=sh(f'cd {V} && python3 check.py {s["prop"]}')
        finally: sh('git -C /repo checkout -- .')
        print(i,'OK' if r0.returncode==0 and a.returncode==0 and b.returncode==0 and r1.returncode!=0 else 'BAD',
              'demo0',r0.returncode,'apply',a.returncode,'build',b.returncode,'demo1',r1.returncode,'CAUGHT' if c.returncode==1 and 'VIOLATION property='+s['prop'] in c.stdout else f'missed rc={c.returncode}')
        if r0.returncode: print(r0.stderr[-1500:])
        if r1.returncode: print('   ',r1.stderr.strip().splitlines()[-1][:200] if r1.stderr.strip() else '')
        if b.returncode: print(b.stderr[-800:])
main()

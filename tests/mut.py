"""Token-level mutants of the files in MUT (comma separated, relative to /repo), to be decided by the properties in MUTID. The ones reported WRONG survive: read each and decide whether it changes behaviour a property speaks of."""
import os,re
R=os.environ.get('SIG_REPO','/repo'); V={}
IDS=os.environ['MUTID'].split(',')
SW=[(r'(?<![<=>\-])<=(?!=)','<'),(r'(?<![<=>\-])>=(?!=)','>'),(r' < ',' <= '),(r' > ',' >= '),(r' < ',' > '),(r'==','!='),(r'!=','=='),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),
    (r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r' << ',' >> '),(r' >> ',' << '),(r' \^ ',' | '),(r' \^ ',' & '),(r' % ',' / '),(r' \| ',' & '),(r' & ',' | '),(r'(?<![\w.])0(?![\w.x])','1'),(r'(?<![\w.])1(?![\w.])','0'),(r'(?<![\w.])1(?![\w.])','2'),(r'(?<![\w.])2(?![\w.])','3'),
    (r'(?<=[ (])!(?=[a-z(])',''),(r'\bif (?!let)(?=[a-z!(*])','if true || '),(r'\bif (?!let)(?=[a-z!(*])','if false && '),(r'\bensure!\(','ensure!(true || '),(r'\bassert!\(','assert!(true || '),(r'\bassert_eq!\((.*?), (.*)\);',r'let _ = (&\1, &\2);'),
    (r'\bNone\b(?= *=>)','None if true'),(r'\bmin\b','max'),(r'\bmax\b','min'),(r'\bany\b','all'),(r'\ball\b','any'),(r'\bfirst\b','last'),(r'\bleft\b','right'),(r'\bright\b','left'),(r'\bsource\b','target'),(r'\btarget\b','source'),(r'\.rev\(\)',''),(r'\.skip\(1\)',''),(r'\.saturating_sub\(','.wrapping_sub('),(r'\bchecked_add\(','checked_sub('),
    (r'\bcontinue;','break;'),(r'\bbreak;','continue;'),(r'\bfinalized\b','justified'),(r'\bcurrent_justified\b','previous_justified'),(r'\bprevious_justified\b','current_justified'),(r'to_le_bytes','to_be_bytes'),(r'from_le_bytes','from_be_bytes')]
for f in os.environ['MUT'].split(','):
    s=open(R+'/'+f).read(); end=s.find('#[cfg(test)]'); end=len(s) if end<0 else end
    starts=[0]
    for i,c in enumerate(s):
        if c=='\n': starts.append(i+1)
    def put(a,b,new,tag):
        ln=s.count('\n',0,a)+1
        t=s[:a]+new+s[b:]
        V['%s:%d:%d:%s'%(os.path.basename(f),ln,a-starts[ln-1],tag)]=('bug',IDS,[(f,s,t)])
    for ln,a in enumerate(starts):
        if a>=end: break
        line=s[a:s.find('\n',a)]; st=line.strip()
        if st.startswith(('//','#[','use ','pub use','extern','/*','*')) or not st: continue
        code=line.split('//')[0]
        for k,(p,r) in enumerate(SW):
            for m in re.finditer(p,code): put(a+m.start(),a+m.end(),m.expand(r),'%d %s->%s'%(k,m.group(0).strip()[:12],r.strip()[:12]))
        if re.match(r'^\s*[a-z_.*]+( [-+*|^&<>]*= |\.(push|insert|extend|sort|reverse|remove|retain|dedup|truncate|clear|pop)\w*\().*;$',code) and not st.startswith('let'): put(a,a+len(code),'','del')

"""Writes DESIGN.md: hand-written text plus the per-property table (checks.py) and the seed table (seeded/*/meta.json, seeded.json)."""
import os,json,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/analysis')
HEAD=open(V+'/tools/design_head.md').read(); NOTES=open(V+'/tools/design_notes.md').read()
import checks
props={json.loads(l)['id']:json.loads(l) for l in open(V+'/properties.jsonl')}
WHAT=json.load(open(V+'/tools/design_props.json'))
out=[HEAD,'\n## 3. Per property\n']
for i,p in props.items():
    if i in checks.CHECKS:
        ob=checks.CHECKS[i]['obl']; n=len(ob)
        an=', '.join('`%s`'%(o.get('code') or o.get('type') or o.get('anchor') or 'transport of '+o['root']).split('specs_')[-1] for o in ob[:4])+(', …' if n>4 else '')
        out.append('* **%s** %s — %d obligation%s (%s). %s'%(i,p['title'],n,'s'*(n>1),an,WHAT.get(i,'')))
    else: out.append('* **%s** %s — not applicable: %s'%(i,p['title'],checks.NOT_APPLICABLE.get(i,'check not built')))
out.append('\n## 4. Planted bugs and which check catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
res=json.load(open(V+'/tools/seeds_result.json')) if os.path.exists(V+'/tools/seeds_result.json') else {}
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%d)); out.append('| %s | %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','/'),res.get(d,m['property'])))
out.append('\n'+NOTES)
open(V+'/DESIGN.md','w').write('\n'.join(out))

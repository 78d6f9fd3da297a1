#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below, and per property the rule its check applies (the Explain text in
xxverif/check), the technique and limits (claims.json) and the planted bugs (seeded/)."""
import json,os,re,glob
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claims=json.load(open(V+'/tools/claims.json'))
expl={}
for f in sorted(glob.glob(V+'/xxverif/check/*.go')):
    s=open(f).read()
    for m in re.finditer(r'\nfunc check([A-Z]\d\d)\(w \*World, r \*Rep\) \{(.*?)\n\}\n',s,re.S):
        e=re.search(r'r\.Explain = "((?:[^"\\]|\\.)*)"',m[2])
        if e: expl[m[1]]=json.loads('"'+e[1]+'"')
seeds={}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(d)); seeds.setdefault(j['property'],[]).append((os.path.basename(os.path.dirname(d)),j))
out=open(V+'/tools/design_head.md').read().rstrip()+'\n\n## Properties\n\n'
for p in props:
    i=p['id']; c=claims.get(i,{})
    out+='### %s %s\n\n%s\n\n'%(i,p['title'],p['statement'])
    if 'technique' not in c:
        out+='**Not applicable.** %s\n\n'%c.get('reason',''); continue
    out+='*Decided by* %s.\n\n'%c['technique']
    if i in expl: out+='*Rule.* %s\n\n'%expl[i]
    if c.get('note') and c['note']!='None': out+='*Limits.* %s\n\n'%c['note']
    if i in seeds: out+='*Planted bugs caught:* %s.\n\n'%', '.join('`%s`'%n for n,_ in seeds[i])
out+=open(V+'/tools/design_tail.md').read().rstrip()+'\n\n## Defects found and repaired\n\nAll were shown against the real code first (`defects/run.sh REPO` runs the demonstrations); none is left open, so\n`known_findings.txt` only has `fixed:` lines.\n\n'
for l in open(V+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: out+='* %s `%s`: %s\n'%m.groups()
open(V+'/DESIGN.md','w').write(out)

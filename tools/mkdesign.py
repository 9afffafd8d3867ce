#!/usr/bin/env python3
# fills the tables of DESIGN.md from design.src.md, properties.jsonl, floors.json and the seeds
import json, os, re, glob
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(D+'/tools/design.src.md').read()
floors=json.load(open(D+'/analyzer/tables/floors.json'))
props={}
for l in open(D+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
why=json.load(open(D+'/tools/why.json'))
rows=[]
for i in sorted(props):
    if i.startswith('N'): continue
    f=floors.get(i,{})
    n={'confirmed-relation':'R1','guarded-by':'R2','lock-balance':'R3','context-flow':'R4','append-owner':'R5','emitted-text':'R6'}
    rows.append('| %s %s | %s | %s |'%(i,props[i]['title'],', '.join('%s: %d'%(n.get(k,k),v) for k,v in sorted(f.items(),key=lambda x:n.get(x[0],x[0]))),why.get(i,'')))
src=src.replace('PROPTABLE','\n'.join(rows))
rows=['| bug | property | needs | seen by |','|---|---|---|---|']
seen=json.load(open(D+'/tools/seen.json'))
for m in sorted(glob.glob(D+'/seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |'%(i,d['property'],str(d['needs']).replace('|','/').replace('\n',' '),seen.get(i,'')))
src=src.replace('SEEDTABLE','\n'.join(rows))
n=0
for f in glob.glob(D+'/tools/refactors/0*.py'): n+=len(set(re.findall(r"^R\['([^']+)'\]",open(f).read(),re.M)))
src=src.replace('RFNUM',str(n))
open(D+'/DESIGN.md','w').write(src)

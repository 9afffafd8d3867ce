#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the technique table below
import json,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(d+'/properties.jsonl')]
T=json.load(open(d+'/tools/techniques.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T['not_applicable']:
        na.append({"property":i,"reason":T['not_applicable'][i]}); continue
    checks.append({"property":i,"quick_cmd":f"bash run.sh check {i}","thorough_cmd":f"bash run.sh check {i}",
      "technique":T['technique'][i],"level":"other","level_note":T['note'][i] if i in T['note'] else T['default_note']})
m={"version":1,"setup_cmd":"bash run.sh build","checks":checks,"not_applicable":na,"notes":T['notes']}
json.dump(m,open(d+'/MANIFEST.json','w'),indent=1); open(d+'/MANIFEST.json','a').write('\n')

# usage: mutrun.sh DIR ; runs an rel over all mutants 6-way
. /opt/vp/env.sh
cd /verif/analyzer
ls -d $1/m* | xargs -P 7 -I{} sh -c 'AN_OVERLAY={}/overlay.json timeout 120 /tmp/an rel > {}/out.txt 2>&1'
python3 - $1 <<'P'
import sys,glob,json,re,collections
d=sys.argv[1]
tot=collections.Counter();det=collections.Counter();miss=[]
for m in sorted(glob.glob(d+'/m*')):
    o=open(m+'/out.txt').read(); i=json.load(open(m+'/info.json'))
    g=re.search(r'^DIFFS (\d+)',o,re.M)
    if not g: tot['nocompile' if 'LOAD' in o else 'crash']+=1; continue
    tot[i['Kind']]+=1; tot['ALL']+=1
    if int(g[1])>0: det[i['Kind']]+=1; det['ALL']+=1
    else: miss.append((m[-5:],i['Kind'],i['File'],i['Func'],i['Line'],i['Before'][:90].replace('\n',' '),i['After'][:60].replace('\n',' ')))
for k in tot: print(k,det[k],tot[k])
for x in miss: print(*x)
P

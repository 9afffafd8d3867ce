#!/usr/bin/env python3
"""Applies hand-written bugs (never applied to /repo) (NN_*.py: R = {name: {file: [(old,new),...]}})
as overlays and reports what the analyzer says. Usage: run.py AN_BINARY [filter] [mode]"""
import sys,os,json,subprocess,glob,importlib.util,re,concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__))
an=sys.argv[1]; flt=sys.argv[2] if len(sys.argv)>2 else ''; mode=sys.argv[3] if len(sys.argv)>3 else 'all'
repo=os.environ.get('AN_REPO','/repo')
jobs=[]
for f in sorted(glob.glob(here+'/[0-9]*.py')):
    sp=importlib.util.spec_from_file_location('m',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for n,edits in m.R.items():
        if re.search(flt,os.path.basename(f)[:2]+'_'+n): jobs.append((os.path.basename(f)[:2]+'_'+n,edits))
def run(j):
    n,edits=j
    d='/tmp/hb/'+n; os.makedirs(d,exist_ok=True)
    rep={}
    for i,(f,es) in enumerate(edits.items()):
        s=open(repo+'/'+f).read()
        for e in es:
            old,new=e[0],e[1]; cnt=e[2] if len(e)>2 else 1
            if s.count(old)<1 or (cnt==1 and s.count(old)!=1): return n,'BADEDIT %s: %d matches of %r'%(f,s.count(old),old[:80])
            s=s.replace(old,new)
        t='%s/%d_%s'%(d,i,os.path.basename(f)); open(t,'w').write(s)
        rep[repo+'/'+f]=t
    json.dump(rep,open(d+'/overlay.json','w'))
    env=dict(os.environ,AN_OVERLAY=d+'/overlay.json',AN_REPO=repo,VERIF_DIR='/verif')
    p=subprocess.run(['bash','-c','. /opt/vp/env.sh; exec %s %s'%(an,mode)],capture_output=True,text=True,env=env,errors='replace')
    open(d+'/out','w').write(p.stdout+p.stderr)
    return n,p.stdout
with cf.ThreadPoolExecutor(4) as ex:
    for n,o in ex.map(run,jobs):
        ls=[l for l in o.splitlines() if l.startswith('  V ')]
        print('%-40s %s'%(n,'ok' if 'DIFFS 0' in o else 'LINES %d'%len(ls)))
        if 'DIFFS 0' not in o:
            for l in (ls or o.splitlines())[:int(os.environ.get('N','3'))]: print('    '+l[:230])

#!/usr/bin/env python3
"""refac.py [ids...]: run the named checks on scratch copies with behaviour-preserving edits (development aid); env ALL=1 runs every check"""
import sys,os,subprocess,shutil,tempfile,re
ns={}
exec(open(os.path.dirname(os.path.abspath(__file__))+'/refac/r.py').read(),ns)
only=sys.argv[1:]
keep=None
if only and only[0]=='--dir': keep=only[1]; only=only[2:]
for id,props,edits in ns['R']:
    if only and id not in only: continue
    d=keep or tempfile.mkdtemp(prefix='refac_')
    if keep: shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo/include',d+'/include')
    bad=None
    for f,old,new in edits:
        p=d+'/include/kelcoro/'+f
        s=open(p).read()
        if s.count(old)!=1: bad='pattern %s x%d: %s'%(f,s.count(old),old[:60]); break
        open(p,'w').write(s.replace(old,new))
    if bad: print(id,'BAD',bad,flush=True)
    elif not keep:
        for prop in props:
            r=subprocess.run(['timeout','900','python3-vt','/verif/kvc/check.py',prop],env=dict(os.environ,KVC_REPO=d),capture_output=True,text=True)
            o=[l for l in r.stdout.splitlines() if re.search('failed|undecided|VIOLATION|apply',l)]
            print(id,prop,'rc',r.returncode,r.stdout.splitlines()[-1][:100] if r.returncode==0 else ' | '.join(x[:230] for x in o[:4]), r.stderr[-300:],flush=True)
    if not keep: shutil.rmtree(d)

#!/usr/bin/env python3
"""seedcheck.py [-c] ID...: (development aid) demo on base and on a patched scratch copy, then (-c) the property's check on the copy"""
import sys,os,json,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
a=sys.argv[1:]; chk='-c' in a; a=[x for x in a if x!='-c'] or sorted(os.listdir('/verif/seeded'))
def demo(id,cwd):
    with tempfile.TemporaryDirectory(prefix='sdemo_') as t:
        shutil.copytree('/verif/seeded/'+id,t+'/d')
        for f in ('patch.diff','meta.json'): os.remove(t+'/d/'+f)
        r=subprocess.run(['bash',t+'/d/demo.sh'],cwd=cwd,capture_output=True,text=True)
        return r.returncode,(r.stdout+r.stderr)[-4000:]
def one(id):
    d=tempfile.mkdtemp(prefix='sdc_')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C '+d,shell=True)
    b=demo(id,d)
    subprocess.check_call(['git','apply','--unsafe-paths','--directory='+d.lstrip('/'),'/verif/seeded/%s/patch.diff'%id],cwd='/')
    p=demo(id,d)
    out='%s: base %d patched %d'%(id,b[0],p[0])
    if b[0]: out+='\n   BASE: '+b[1]
    elif '-v' in sys.argv or not p[0]: out+='\n   '+p[1]
    else:
        l=[x for x in p[1].splitlines() if 'ERROR' in x or 'FAILED' in x or 'WARNING' in x or 'runtime error' in x]
        out+='  '+(l or p[1].splitlines() or [''])[0][:150]
    return id,d,out
with ThreadPoolExecutor(6) as ex: rs=list(ex.map(one,[x for x in a if x!='-v']))
for id,d,out in rs:
    print(out,flush=True)
    if chk:
        prop=json.load(open('/verif/seeded/%s/meta.json'%id))['property']
        r=subprocess.run(['timeout','900','python3-vt','/verif/kvc/check.py',prop],env=dict(os.environ,KVC_REPO=d),capture_output=True,text=True)
        print('   check',prop,'rc',r.returncode,r.stderr[-300:])
        for l in [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'failed' in l or 'undecided' in l][:5]: print('     ',l[:220],flush=True)
    shutil.rmtree(d)

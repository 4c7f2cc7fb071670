#!/usr/bin/env python3
"""mut.py PROP file 'old' 'new' [n]: run a check on a scratch copy with one textual change (development aid)"""
import sys,os,subprocess,shutil,tempfile
prop,f,old,new=sys.argv[1:5]
nth=int(sys.argv[5]) if len(sys.argv)>5 else 0
d=tempfile.mkdtemp(prefix='mut_')
shutil.copytree('/repo/include',d+'/include')
p=d+'/include/kelcoro/'+f
s=open(p).read()
parts=s.split(old)
assert len(parts)>nth+1,'pattern not found'
s=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
open(p,'w').write(s)
r=subprocess.run(['python3-vt','/verif/kvc/check.py',prop],env=dict(os.environ,KVC_REPO=d),capture_output=True,text=True)
print('---',prop,f,repr(old[:60]),'->',repr(new[:60]),'rc',r.returncode)
print(r.stdout[-1500:], r.stderr[-600:])
shutil.rmtree(d)

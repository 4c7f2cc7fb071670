#!/usr/bin/env python3
"""nat.py CXX [include-root]: run the native replay battery alone (development aid; must report no failure on the unchanged tree)"""
import sys,os,time
if len(sys.argv)>2: os.environ['KVC_REPO']=sys.argv[2]
sys.path.insert(0,'/verif/kvc')
import replayrun
t=time.time()
ok,log=replayrun.run('/verif',sys.argv[1],'/verif/replay/%s.cpp'%sys.argv[1].lower())
print(log[-6000:]); print('reproduced' if ok else 'no failure','%.1fs'%(time.time()-t))

#!/usr/bin/env python3
"""mkseed.py SPECFILE: (development aid) create /verif/seeded/<id>/ from a spec: python dict list SEEDS=[dict(id,prop,edits=[(file,old,new)],needs,breaks,demo)]"""
import sys,os,json,subprocess,shutil
ns={}
exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
DEMO='''#!/bin/bash
# run with cwd = the kelcoro tree
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
clang++ -std=c++20 -g -O1 -w -pthread %s -I"$PWD/include" -I"$D" "$D/demo.cpp" -o "$T/demo" || exit 3
export ASAN_OPTIONS=detect_leaks=1:detect_stack_use_after_return=1
timeout 200 "$T/demo"
'''
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']
    os.makedirs(d,exist_ok=True)
    w='/tmp/mkseed_w'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,old,new in s['edits']:
        p=w+'/include/kelcoro/'+f
        t=open(p).read()
        assert t.count(old)==1,(s['id'],f,old,t.count(old))
        open(p,'w').write(t.replace(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    shutil.rmtree(w)
    flags=s.get('flags','-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=null,alignment,vptr')
    open(d+'/demo.sh','w').write(DEMO%flags); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(s['demo'].lstrip('\n'))
    if 'sched.hpp' in s['demo']: shutil.copy('/verif/replay/sched.hpp',d+'/sched.hpp')
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    print('made',s['id'])

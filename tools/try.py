import sys, os
sys.path.insert(0,'/verif/kvc')
import build, ir, target, importlib, time
p=importlib.import_module('props.'+sys.argv[1])
MODS={}
def mod(t):
    d=getattr(t,'driver',p.DRIVER)
    if d not in MODS: MODS[d]=ir.Module(build.compile_driver('/verif/drivers/'+d,os.environ.get('BC','/tmp/t/bc')))
    return MODS[d]
sel=sys.argv[2:] 
for T in p.TARGETS:
    t=T() if isinstance(T,type) else T
    if sel and t.name not in sel: continue
    for small in ((False,) if os.environ.get("FULL") else (False,True)):
        r=target.run(mod(t),t,small)
        bad=[o for o in r.obs if o.status!='discharged']
        print('%-30s %s cases=%d paths=%d reach=%d obs=%d bad=%d q=%d solver=%.1fs wall=%.1fs %s'%(t.name,'small' if small else 'full ',r.cases,r.paths,r.reach,len(r.obs),len(bad),r.queries,r.solver_s,r.wall,r.error or ''))
        for o in bad[:8]: print('     ',o.status,o.name,'|',o.loc,'|',o.note,'|',o.trail and o.trail[-6:])
        if '-v' in sys.argv or bad:
            for w,c in r.loops[:6]: print('    LOOP',w,c)

import sys,time
sys.path.insert(0,'/verif/engine')
import build,irparse,vg
h=sys.argv[1]; ents=sys.argv[2:]
t=time.time(); txt=build.module_text([h]); print('build',time.time()-t)
t=time.time(); m=irparse.Module(txt); print('parse',time.time()-t)
for fn in sorted(m.funcs):
    if fn.startswith('H_') and (not ents or fn in ents):
        t=time.time(); e=vg.Engine(m)
        mem=e.init_globals()
        r=e.call(fn,[],mem,1,None)
        print(fn,'obl',sum(e.obl.values()),'acc',e.accesses,'steps',e.steps,'bdd',len(e.B.var),'%.2fs'%(time.time()-t),'pc',r[2])
        for v in e.viol[:4]: print('  ',v['kind'],v['loc'],v['msg'][:330],v['trace'][:3], (v['cond'] or '')[:100])

import sys, time, traceback
sys.setrecursionlimit(20000)
import engine, stdlib, solver
import contracts
E = engine.Engine('/tmp/mir.json', stdlib.B)
C = contracts.Cfg(E)
E.cfg = C
if len(sys.argv)==2 and sys.argv[1].endswith('*'):
    sys.argv[1:]=[r.split('::')[-1] for r in E.roots if r.split('::')[-1].startswith(sys.argv[1][:-1])]
for n in sys.argv[1:]:
    E.reset()
    key=[k for r,k in E.roots.items() if r.split('::')[-1]==n][0]
    t=time.time()
    C.start(E,n,key)
    try:
        E.prove(key, time.time()+300)
        err=''
    except (engine.Unsupported, engine.Budget, engine.Fork) as e:
        err='%s %s'%(type(e).__name__, e)
        tb=traceback.extract_tb(sys.exc_info()[2])
        print('\n'.join('%s:%d'%(x.filename.split('/')[-1],x.lineno) for x in tb[-6:]))
    c={}
    for o in E.obs: c[o[2]]=c.get(o[2],0)+1
    print(n, err, 'obs',c,'paths',E.paths,'steps',E.steps,'summ',E.summaries,'q',solver.Stats.queries,'%.2fs'%(time.time()-t))
    seen=set()
    for o in E.obs:
        if o[2]!='ok' and (o[0],o[1]) not in seen:
            seen.add((o[0],o[1]))
            print(' ',o[2],o[0],o[1]); print('     goal',o[4]['goal'][:int(__import__('os').environ.get('GL','300'))]); print('     pc',o[4]['pc'][-int(__import__('os').environ.get('PL','6')):])
            print('     ',o[4]['trace'][-6:])

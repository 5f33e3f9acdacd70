import sys,os,time
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/contracts')
import build, verify, sym, ir
import props
from multiprocessing import Pool
OUT='/tmp/w/b'
if not os.path.exists(OUT+'/all.bc') or '-b' in sys.argv:
    os.makedirs(OUT,exist_ok=True)
    build.build_bc(OUT)
prog=build.Program(OUT+'/all.bc',OUT)
LAY=[a[1:] for a in sys.argv[1:] if a[0]=='@']
LAY=LAY[0] if LAY else 'list'
TMO=[int(a[3:]) for a in sys.argv[1:] if a.startswith('-t=')]
TMO=TMO[0] if TMO else 10
def stop(c):
    return c in verify.REG.contracts or c=='MSTK_Report' or hasattr(verify.Exec2,'lib_'+c.replace('.','_')) or c in verify.NOEFFECT
def one(f):
    try:
        t,inl=prog.prepare(f,stop)
        m=ir.Mod(t)
    except Exception as e:
        return {'status':'undecided','reason':repr(e)[:300],'failed':[],'obligations':0,'discharged':0,'paths':0,'loops':0,'invariants':0,'wall':0,'queries':0,'solver_s':0}
    return verify.verify(m,f,props.LAYERS[LAY],axioms=props.AXIOMS[LAY],verbose=True,timeout=TMO)
if __name__=='__main__':
    fs=[a for a in sys.argv[1:] if a[0] not in '-@']
    if fs and fs[0].startswith('='): fs=eval(fs[0][1:],{'props':props,**{k:getattr(props,k) for k in dir(props)}})
    ok=0
    with Pool(8, maxtasksperchild=1) as p:
        for f,r in zip(fs,p.imap(one,fs)):
            if r['status']=='proved' and '-q' in sys.argv: ok+=1; continue
            print('%-18s %-9s obl %d/%d paths %d loops %d inv %d wall %.1f q %d solver %.1f %s'%(f,r['status'],r['discharged'],r['obligations'],r['paths'],r['loops'],r['invariants'],r['wall'],r['queries'],r['solver_s'],r['reason'][:300]))
            for x in r['failed']: print('     FAIL',x['label'],x['info'][:260].replace('\n',' '),x['trace'] if '-v' in sys.argv else '')
            if '-v' in sys.argv:
                for l in r.get('loopinfo',[]): print('     ',l[0],l[1],l[2]); print('        ','\n         '.join(l[3]))
                print(r.get('tb',''))
    print('ok',ok)
